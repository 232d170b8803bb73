--------------------------------- MODULE PreBin ---------------------------------
\* Candidate split points of the pre-binning methods.
\* vals = <<position, ..., raw count>> of the distinct clean values, increasing;
\* positions are the data values times a unit that makes every split an integer.
EXTENDS Bin1D

RECURSIVE Dedup(_)
Dedup(s) == IF Len(s) <= 1 THEN s
            ELSE IF s[1] = s[2] THEN Dedup(Tail(s)) ELSE <<s[1]>> \o Dedup(Tail(s))
Inner(e) == IF Len(e) <= 2 THEN <<>> ELSE SubSeq(e, 2, Len(e) - 1)
\* ---- equal width: min + j (max - min) / n
UniformSplits(vp, n) ==
  LET lo == vp[1]  hi == vp[Len(vp)] IN
  IF lo = hi THEN <<>> ELSE [j \in 1..(n - 1) |-> lo + (j * (hi - lo)) \div n]
\* ---- equal frequency: linear interpolation between order statistics
RECURSIVE Expand(_, _, _)
Expand(vp, raw, k) == IF k > Len(vp) THEN <<>> ELSE [i \in 1..raw[k] |-> vp[k]] \o Expand(vp, raw, k + 1)
QuantileSplits(vp, raw, n) ==
  LET s == Expand(vp, raw, 1)   N == Len(s)
      q(j) == LET h == (N - 1) * j  i == h \div n  f == h % n IN
              IF f = 0 THEN s[i + 1] ELSE s[i + 1] + (f * (s[i + 2] - s[i + 1])) \div n
  IN Inner(Dedup([j \in 1..(n + 1) |-> q(j - 1)]))
\* ---- what any method must satisfy
Admissible(vp, spl) == IsStrict(spl) /\ \A i \in 1..Len(spl) : spl[i] > vp[1] /\ spl[i] <= vp[Len(vp)]
RawBins(vp, raw, spl) ==
  [k \in 1..(Len(spl) + 1) |->
     Sum([i \in 1..Len(vp) |-> IF (k = 1 \/ vp[i] >= spl[k - 1]) /\ (k = Len(spl) + 1 \/ vp[i] < spl[k]) THEN raw[i] ELSE 0])]
\* ------------------------------------------------------------------ MDLP
\* gr[k] = <<ne, e>> raw counts of distinct value k; a split k separates values
\* 1..k from k+1.. ; entropies in micro-nats times the number of records.
XL(k) == IF k = 0 THEN 0 ELSE k * Ln(k)
H(b) == XL(b[1] + b[2]) - XL(b[1]) - XL(b[2])
NGain(gr, lo, k, hi) == H(Acc2(gr, lo, hi)) - H(Acc2(gr, lo, k)) - H(Acc2(gr, k + 1, hi))
MBoundary(gr, k) == ~((gr[k][1] = 0 /\ gr[k + 1][1] = 0) \/ (gr[k][2] = 0 /\ gr[k + 1][2] = 0))
MCands(gr, lo, hi, leaf) ==
  {k \in lo..(hi - 1) : /\ MBoundary(gr, k)
                        /\ Size(Acc2(gr, lo, k)) >= leaf /\ Size(Acc2(gr, k + 1, hi)) >= leaf}
Ent2(b) == IF IsPure(b) THEN 0 ELSE (2 * H(b)) \div Size(b)
\* n*gain - ln(n-1) - delta : accepted iff positive
MScore(gr, lo, k, hi) ==
  LET P == Acc2(gr, lo, hi)  L == Acc2(gr, lo, k)  R == Acc2(gr, k + 1, hi) IN
  NGain(gr, lo, k, hi) - Ln(Size(P) - 1) - (Ln(7) - (Ent2(P) - Ent2(L) - Ent2(R)))
MTol(gr, lo, hi) == 20 + 4 * Size(Acc2(gr, lo, hi))
RECURSIVE MValid(_, _, _, _, _, _, _)
\* is S (split indices) a possible outcome on the values lo..hi ?
MValid(gr, S, lo, hi, leaf, minsplit, exact) ==
  LET inn == {k \in S : k >= lo /\ k < hi}
      C == MCands(gr, lo, hi, leaf)
      P == Acc2(gr, lo, hi)
      t == MTol(gr, lo, hi)
      best == SetMax({0} \cup {NGain(gr, lo, k, hi) : k \in C})
      near == {k \in C : NGain(gr, lo, k, hi) >= best - t}
  IN IF inn = {}
     THEN \/ ~exact \/ C = {} \/ best <= t \/ Size(P) < minsplit
          \/ \E k \in near : MScore(gr, lo, k, hi) <= t
     ELSE /\ Size(P) >= minsplit
          /\ \E k \in inn :
               /\ IF exact THEN k \in near
                  ELSE Size(Acc2(gr, lo, k)) >= leaf /\ Size(Acc2(gr, k + 1, hi)) >= leaf
               /\ MScore(gr, lo, k, hi) > -t
               /\ MValid(gr, S, lo, k, leaf, minsplit, exact)
               /\ MValid(gr, S, k + 1, hi, leaf, minsplit, exact)
================================================================================
