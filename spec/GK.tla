----------------------------------- MODULE GK -----------------------------------
\* The Greenwald-Khanna summary as an algorithm: entries <<v, g, d>>, a buffer of
\* incoming values, Compress, Combine of two summaries, and the quantile query.
\* eps = 1 / E.
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS E
EmptyGK == [ent |-> <<>>, inc |-> <<>>, n |-> 0, min |-> 0]
RECURSIVE SortedIns(_, _)
SortedIns(s, v) == IF s = <<>> THEN <<v>> ELSE IF Head(s) <= v THEN <<Head(s)>> \o SortedIns(Tail(s), v) ELSE <<v>> \o s
RECURSIVE SortSeq2(_)
SortSeq2(s) == IF s = <<>> THEN <<>> ELSE SortedIns(SortSeq2(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
Fits(g, tn, n) == (g + tn[2] + tn[3]) * E <= 2 * (n - 1)
Absorb(s, g) == <<<<s[1][1], s[1][2] + g, s[1][3]>>>> \o Tail(s)
RECURSIVE MC(_, _, _)        \* merge buffer I and entries J (both sorted) under count n
MC(I, J, n) ==
  IF I = <<>> THEN
     (IF J = <<>> THEN <<>> ELSE IF Len(J) > 1 /\ Fits(J[1][2], J[2], n) THEN MC(I, Absorb(Tail(J), J[1][2]), n)
      ELSE <<J[1]>> \o MC(I, Tail(J), n))
  ELSE IF J = <<>> THEN
     (IF Len(I) > 1 /\ Fits(I[1][2], I[2], n) THEN MC(Absorb(Tail(I), I[1][2]), J, n)
      ELSE <<I[1]>> \o MC(Tail(I), J, n))
  ELSE IF I[1][1] < J[1][1] THEN
     (IF Fits(I[1][2], J[1], n) THEN MC(Tail(I), Absorb(J, I[1][2]), n)
      ELSE <<<<I[1][1], I[1][2], J[1][2] + J[1][3] - I[1][2]>>>> \o MC(Tail(I), J, n))
  ELSE (IF Len(J) > 1 /\ Fits(J[1][2], J[2], n) THEN MC(I, Absorb(Tail(J), J[1][2]), n)
        ELSE <<J[1]>> \o MC(I, Tail(J), n))
Compress(s) == LET q == SortSeq2(s.inc) IN
  [s EXCEPT !.ent = MC([i \in 1..Len(q) |-> <<q[i], 1, 0>>], s.ent, s.n), !.inc = <<>>]
Min2(a, b) == IF a < b THEN a ELSE b
GAdd(s, v) == LET t == [s EXCEPT !.inc = Append(@, v), !.n = @ + 1, !.min = IF s.n = 0 THEN v ELSE Min2(@, v)] IN
  IF t.n % (E + 1) = 0 THEN Compress(t) ELSE t
Plus(e, nx) == IF nx = <<>> THEN e ELSE <<e[1], e[2], e[3] + nx[1][2] + nx[1][3] - 1>>
RECURSIVE Comb(_, _)
Comb(A, B) == IF A = <<>> THEN B ELSE IF B = <<>> THEN A
  ELSE IF A[1][1] <= B[1][1] THEN <<Plus(A[1], B)>> \o Comb(Tail(A), B) ELSE <<Plus(B[1], A)>> \o Comb(A, Tail(B))
GMerge(s, t) == IF t.n = 0 THEN s ELSE IF s.n = 0 THEN t
  ELSE LET a == Compress(s)  b == Compress(t) IN
       Compress([ent |-> Comb(a.ent, b.ent), inc |-> <<>>, n |-> a.n + b.n, min |-> Min2(a.min, b.min)])
\* quantile query at q = num / den
Quantile(s, num, den) ==
  LET t == IF s.inc # <<>> THEN Compress(s) ELSE s
      rank == (num * (t.n - 1)) \div den + 1
      spread == (t.n - 1) \div E
      F[i \in 0..Len(t.ent)] == IF i = 0 THEN 0 ELSE F[i - 1] + t.ent[i][2]
      over == {i \in 1..Len(t.ent) : F[i] + t.ent[i][3] > rank + spread}
      i0 == IF over = {} THEN Len(t.ent) + 1 ELSE CHOOSE i \in over : \A j \in over : i <= j
  IN IF i0 = 1 THEN t.min ELSE t.ent[i0 - 1][1]
=================================================================================
