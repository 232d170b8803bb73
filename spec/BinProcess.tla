------------------------------- MODULE BinProcess -------------------------------
\* The abstract state of a binning process: which fitted binning stands for each
\* variable (0: not fitted), and the selection that follows from it.
EXTENDS Integers, Sequences, FiniteSets
\* st[v]: 0 not fitted, j >= 1: the j-th known binning of variable v
Fitted(st) == \A v \in 1..Len(st) : st[v] # 0
DoFit(st, map) == map
DoUpdate(st, v, j) == [st EXCEPT ![v] = j]
\* Selection.  rk[v][m]: rank of the statistic m of variable v (0: undefined);
\* crit[m]: [on, min, max (ranks), strat, top, frac (quarters)], in metric order:
\* range first, then the best ones among those that remain.
InRange(c, r) == r # 0 /\ c.min <= r /\ r <= c.max
CeilQ(n, f) == (n * f + 3) \div 4
Better(c, a, b) == IF a = 0 THEN FALSE ELSE IF b = 0 THEN TRUE ELSE IF c.strat = "highest" THEN a > b ELSE a < b
\* sets that may remain after the criterion of one metric (several when ties are cut)
Apply(c, S, val(_)) ==
  LET R == IF c.on = 0 \/ (c.min = 0 /\ c.max = 1000000) THEN S ELSE {v \in S : InRange(c, val(v))}
      k == IF c.frac > 0 THEN CeilQ(Cardinality(R), c.frac) ELSE c.top
  IN IF c.on = 0 \/ c.strat = "" THEN {R}
     ELSE IF k >= Cardinality(R) THEN {R}
     ELSE {T \in SUBSET R : Cardinality(T) = k /\ \A a \in T, b \in R \ T : ~Better(c, val(b), val(a))}
RECURSIVE Criteria(_, _, _, _)
Criteria(crit, m, Ss, rk) ==
  IF m > Len(crit) THEN Ss
  ELSE Criteria(crit, m + 1, UNION {Apply(crit[m], S, LAMBDA v : rk[v][m]) : S \in Ss}, rk)
Selections(crit, fixed, rk) ==
  {S \cup fixed : S \in Criteria(crit, 1, {1..Len(rk)}, rk)}
=================================================================================
