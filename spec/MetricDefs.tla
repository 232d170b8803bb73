------------------------------- MODULE MetricDefs -------------------------------
\* Definitions of the performance metrics over the multiset of (target, score) pairs.
EXTENDS Num
RECURSIVE SumS(_, _)
SumS(g, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + SumS(g, S \ {x})
SumI(h(_), n) == Sum([i \in 1..n |-> h(i)])

\* ------------------------------------------------------------------ ranking metrics
EvLe(c, v) == Cardinality({i \in 1..Len(c.y) : c.y[i] = 1 /\ c.s[i] <= v})
NeLe(c, v) == Cardinality({i \in 1..Len(c.y) : c.y[i] = 0 /\ c.s[i] <= v})
Vals(c) == RangeOf(c.s)
NP(c) == Sum(c.y)
NN(c) == Len(c.y) - NP(c)
\* concordant minus discordant (event, non-event) pairs
Conc(c) == Sum([i \in 1..Len(c.y) |-> IF c.y[i] = 0 THEN 0 ELSE
             Cardinality({j \in 1..Len(c.y) : c.y[j] = 0 /\ c.s[j] < c.s[i]})
             - Cardinality({j \in 1..Len(c.y) : c.y[j] = 0 /\ c.s[j] > c.s[i]})])
GiniOf(c) == Ratio(Conc(c), NP(c) * NN(c))
\* difference of the two distributions at v, times P * N
Diff(c, v) == NeLe(c, v) * NP(c) - EvLe(c, v) * NN(c)
Ks1(c) == SetMax({Diff(c, v) : v \in Vals(c)})
Ks2(c) == SetMax({Abs(Diff(c, v)) : v \in Vals(c)})
KsOk(c, t, v, tol) ==
  \/ Near(t, Ratio(Ks1(c), NP(c) * NN(c)), tol) /\ \E w \in v : Diff(c, w) = Ks1(c)
  \/ Near(t, Ratio(Ks2(c), NP(c) * NN(c)), tol) /\ \E w \in v : Abs(Diff(c, w)) = Ks2(c)
RankOk(c, o) ==
  IF NP(c) = 0 \/ NN(c) = 0 THEN {} ELSE
  Cl(Near(o[1], GiniOf(c), 3), "gini") \cup
  Cl(o[3] \in Vals(c) /\ KsOk(c, o[2], {o[3]}, 3), "ks")

\* ------------------------------------------------------------------ confusion matrix metrics
N4(c, a, b) == Cardinality({i \in 1..Len(c.y) : c.y[i] = a /\ c.s[i] = b})
Rate(a, b) == IF b = 0 THEN NANV ELSE Ratio(a, b)
Dp(tp, fn, tn, fp) ==
  IF tp + fn = 0 \/ tn + fp = 0 THEN NANV
  ELSE IF (tp = 0 \/ tn = 0) /\ (fp = 0 \/ fn = 0) THEN NANV
  ELSE IF tp = 0 \/ tn = 0 THEN NINF
  ELSE IF fp = 0 \/ fn = 0 THEN PINF
  ELSE MulM(551329, Ln(tp) + Ln(tn) - Ln(fp) - Ln(fn))
ConfOk(c, o) ==
  LET tp == N4(c, 1, 1)  fn == N4(c, 1, 0)  tn == N4(c, 0, 0)  fp == N4(c, 0, 1)
      P == tp + fn  N == tn + fp
  IN Cl(Near(o[1], Rate(tp, P), 2), "true_positive_rate") \cup Cl(Near(o[2], Rate(tn, N), 2), "true_negative_rate") \cup
     Cl(Near(o[3], Rate(fp, N), 2), "false_positive_rate") \cup Cl(Near(o[4], Rate(fn, P), 2), "false_negative_rate") \cup
     Cl(IF P = 0 \/ N = 0 THEN o[5] = NANV ELSE Near(o[5], (Ratio(tp, P) + Ratio(tn, N)) \div 2, 3), "balanced_accuracy") \cup
     Cl(Near(o[6], Dp(tp, fn, tn, fp), 30), "discriminant_power")

\* ------------------------------------------------------------------ regression metrics
RECURSIVE InsSort(_)
Insert(q, x) == LET k == Cardinality({i \in 1..Len(q) : q[i] <= x}) IN SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
InsSort(q) == IF q = <<>> THEN <<>> ELSE Insert(InsSort(Tail(q)), Head(q))
Median(q) == LET z == InsSort(q)  n == Len(z) IN IF n % 2 = 1 THEN z[n \div 2 + 1] ELSE (z[n \div 2] + z[n \div 2 + 1]) \div 2
RegOk(c, o) ==
  LET n == Len(c.y)
      e == [i \in 1..n |-> c.y[i] - c.s[i]]
      ae == [i \in 1..n |-> Abs(e[i])]
      sq == Sum([i \in 1..n |-> e[i] * e[i]])
      sy == Sum(c.y)
      se == Sum(e)
      vy == n * Sum([i \in 1..n |-> c.y[i] * c.y[i]]) - sy * sy     \* n^2 variance of y
      ve == n * sq - se * se
      rel == [i \in 1..n |-> IF c.y[i] = 0 THEN 0 ELSE IF c.y[i] > 0 THEN Ratio(e[i], c.y[i]) ELSE Ratio(-e[i], -c.y[i])]
      arel == [i \in 1..n |-> Abs(rel[i])]
      sm == [i \in 1..n |-> IF Abs(c.y[i]) + Abs(c.s[i]) = 0 THEN 0 ELSE Ratio(ae[i], Abs(c.y[i]) + Abs(c.s[i]))]
      nz == \A i \in 1..n : c.y[i] # 0
      ns == \A i \in 1..n : Abs(c.y[i]) + Abs(c.s[i]) # 0
      mean(q) == IF Sum(q) >= 0 THEN (Sum(q) + n \div 2) \div n ELSE -((-Sum(q) + n \div 2) \div n)
  IN Cl(Near(o[1], Ratio(Sum(ae), n), 2), "mae") \cup Cl(Near(o[2], Ratio(sq, n), 2), "mse") \cup
     Cl(Near(o[3], Median([i \in 1..n |-> ae[i] * SC]), 2), "median_ae") \cup
     Cl(vy = 0 \/ Near(o[4], SC - Ratio(ve, vy), 3), "explained_variance") \cup
     Cl(vy = 0 \/ Near(o[5], SC - Ratio(n * sq, vy), 3), "r2") \cup
     Cl(~nz \/ Near(o[6], mean(rel), 4), "mpe") \cup Cl(~nz \/ Near(o[7], mean(arel), 4), "mape") \cup
     Cl(~ns \/ Near(o[8], mean(sm), 4), "smape") \cup
     Cl(~nz \/ Near(o[9], Median(arel), 4), "mdape") \cup Cl(~ns \/ Near(o[10], Median(sm), 4), "smdape")

================================================================================
