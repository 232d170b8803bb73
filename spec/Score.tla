---------------------------------- MODULE Score ---------------------------------
\* A scorecard: a linear model on binned variables, its scaling and rounding.
\* Variable v of a fit f: v.coef, v.val (value of every table row), v.pts (points
\* of every row), rows ordered: bins, special rows (v.nsp of them), missing row.
EXTENDS Num

NRow(v) == Len(v.val)
NBin(v) == NRow(v) - 1 - v.nsp
\* row (1-based) a value belongs to: <<0, x>> number, <<1, s>> special, <<2, _>> missing, <<3, c>> category
RowOfVal(v, x) ==
  CASE x[1] = 2 -> NRow(v)
    [] x[1] = 1 -> NBin(v) + x[2]
    [] x[1] = 0 -> 1 + Cardinality({j \in 1..Len(v.spl) : v.spl[j] <= x[2]})
    [] x[1] = 3 -> LET g == {j \in 1..Len(v.grp) : \E i \in 1..Len(v.grp[j]) : v.grp[j][i] = x[2]}
                   IN IF g = {} THEN 0 ELSE SetMin(g)
\* value the model sees for a row
ModelVal(v, r) ==
  IF r = NRow(v) THEN (IF v.mme = 1 THEN v.val[r] ELSE v.mmv)
  ELSE IF r > NBin(v) THEN (IF v.mse = 1 THEN v.val[r] ELSE v.msv)
  ELSE v.val[r]
Raw(v, r) == MulM(v.coef, ModelVal(v, r))
Raws(v) == [r \in 1..NRow(v) |-> Raw(v, r)]

\* totals over the variables
RECURSIVE TotTo(_, _, _)
TotTo(g(_), vs, k) == IF k = 0 THEN 0 ELSE g(vs[k]) + TotTo(g, vs, k - 1)
RMin(f) == TotTo(LAMBDA v : MinSeq(Raws(v)), f.vars, Len(f.vars))
RMax(f) == TotTo(LAMBDA v : MaxSeq(Raws(v)), f.vars, Len(f.vars))
PMin(f) == TotTo(LAMBDA v : MinSeq(v.pts), f.vars, Len(f.vars))
PMax(f) == TotTo(LAMBDA v : MaxSeq(v.pts), f.vars, Len(f.vars))

Sense(f) == IF f.rev = 1 THEN -1 ELSE 1
Factor(f) == DivM(f.pdo * SC, 693147)              \* pdo / ln 2
\* change of the score caused by a change d of the model's linear part
Scale(f, d, range) ==
  CASE f.method = "none"     -> d
    [] f.method = "pdo_odds" -> -Sense(f) * MulM(Factor(f), d)
    [] f.method = "min_max"  -> Sense(f) * (f.lo - f.hi) * DivM(d, range)
\* score of a record whose linear part (without intercept) is t
Target(f, t, rmin, range) ==
  CASE f.method = "none"     -> t
    [] f.method = "pdo_odds" -> f.spts * SC - MulM(Factor(f), Ln(f.odds)) - Sense(f) * MulM(Factor(f), t + f.b0)
    [] f.method = "min_max"  -> (IF f.rev = 1 THEN f.lo ELSE f.hi) * SC + Scale(f, t - rmin, range)
Tol(f, range) ==
  CASE f.method = "none" -> 20
    [] f.method = "pdo_odds" -> 1000
    [] f.method = "min_max" -> 2000 + (f.hi - f.lo) * ((12 * SC) \div Max2(range, 1))
================================================================================
