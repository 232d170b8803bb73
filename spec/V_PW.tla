---------------------------------- MODULE V_PW ----------------------------------
\* Piecewise binning: every record is counted once, the prediction is the polynomial of the bin of x,
\* clipped to the requested bounds; requested continuity, trend and bounds hold on the fitted curve;
\* special and missing values get the requested or the empirical value.
EXTENDS Num, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NB(c) == Len(c.spl8) + 1                          \* bins
\* a value x = x4 / 4 is right of a split at its eighth position, closed on the left
BinOf(c, x4) == 1 + Cardinality({j \in 1..Len(c.cuts) : c.cuts[j] < x4})
RowOf(c, t) == IF t[2] = -1 THEN NB(c) + c.d + 1 ELSE IF t[2] > 0 THEN NB(c) + t[2] ELSE BinOf(c, t[1])
NR(c) == NB(c) + c.d + 1
In(c, j) == {i \in 1..Len(c.rows) : RowOf(c, c.rows[i]) = j}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE z \in S : TRUE IN f[i] + SumOver(f, S \ {i})
Ys(c) == [i \in 1..Len(c.rows) |-> c.rows[i][3]]
Y2s(c) == [i \in 1..Len(c.rows) |-> c.rows[i][3] * c.rows[i][3]]
Ev(c, j) == Cardinality({i \in In(c, j) : c.rows[i][3] # 0})
Cn(c, j) == Cardinality(In(c, j))
\* ---- polynomial of a bin, x in quarters; BIGV when out of range
RECURSIVE Horner(_, _, _, _, _)
Horner(c, j, x, den, k) ==      \* coefficients k..deg, value at x/den
  IF k = c.deg THEN c.coef[k + 1][j]
  ELSE LET v == Horner(c, j, x, den, k + 1) IN
       IF ~IsOrd(v) \/ ~IsOrd(c.coef[k + 1][j]) \/ Abs(v) > 30 * SC \/ Abs(c.coef[k + 1][j]) > 900 * SC THEN BIGV
       ELSE (v * x) \div den + c.coef[k + 1][j]
Poly(c, j, x4) == IF ~IsOrd(c.coef[c.deg + 1][j]) THEN BIGV ELSE Horner(c, j, x4, 4, 0)
Tol(c) == 10 * (CASE c.deg = 0 -> 1 [] c.deg = 1 -> 8 [] c.deg = 2 -> 50 [] OTHER -> 350)
SolTol(c) == 300 + Tol(c)
Clip(v, lb, ub) == LET a == IF lb # NONEV /\ v < lb THEN lb ELSE v IN IF ub # NONEV /\ a > ub THEN ub ELSE a
\* ---- empirical values
MeanOf(c, j) == IF Cn(c, j) = 0 THEN 0 ELSE Ratio(SumOver(Ys(c), In(c, j)), 4 * Cn(c, j))
TEv(c) == Cardinality({i \in 1..Len(c.rows) : c.rows[i][3] # 0})
TNe(c) == Len(c.rows) - TEv(c)
Mixed(c, j) == Ev(c, j) > 0 /\ Ev(c, j) < Cn(c, j)
WoeOf(c, j) == Ln(Cn(c, j) - Ev(c, j)) - Ln(Ev(c, j)) + Ln(TEv(c)) - Ln(TNe(c))
EmpOk(c, j, m, v) ==
  IF m = "mean" THEN Near(v, MeanOf(c, j), 3)
  ELSE IF m = "event_rate" THEN (IF Cn(c, j) > 0 THEN Near(v, Ratio(Ev(c, j), Cn(c, j)), 3) ELSE v = 0)
  ELSE IF Mixed(c, j) THEN Near(v, WoeOf(c, j), 20) ELSE v = 0
\* er in micro, 0 < er < 1
WoeRate(c, er) == Ln(SC - er) - Ln(er) + Ln(TEv(c)) - Ln(TNe(c))
CleanOk(c, q, x4, v) ==
  LET e == Poly(c, BinOf(c, x4), x4) IN
  IF ~IsOrd(e) THEN TRUE
  ELSE LET w == Clip(e, q.lb, q.ub) IN
       IF q.m # "woe" THEN NearR(v, w, Tol(c) + 5, 20) /\ (q.lb = NONEV \/ v >= q.lb) /\ (q.ub = NONEV \/ v <= q.ub)
       ELSE IF w < 5000 \/ w > SC - 5000 THEN TRUE
       ELSE LET z == Min2(w, SC - w) IN
            Near(v, WoeRate(c, w), 30 + (Tol(c) * 1000) \div (z \div 1000))
ProbeOk(c, q, k) ==
  LET t == c.probes[k]  v == q.v[k] IN
  IF t[2] = -1 THEN (IF q.mm[1] = 1 THEN EmpOk(c, NR(c), q.m, v) ELSE v = q.mm[2])
  ELSE IF t[2] > 0 THEN (IF q.ms[1] = 1 THEN EmpOk(c, NB(c) + t[2], q.m, v) ELSE v = q.ms[2])
  ELSE CleanOk(c, q, t[1], v)
Which(c, k) == IF c.probes[k][2] = -1 THEN "missing_value" ELSE IF c.probes[k][2] > 0 THEN "special_value" ELSE "prediction"
QueryBad(c, q) == {Which(c, k) \o "_" \o q.m : k \in {x \in 1..Len(c.probes) : ~ProbeOk(c, q, x)}}
\* ---- table
StdOk(c, j) == LET n == Cn(c, j)  s == SumOver(Ys(c), In(c, j))  s2 == SumOver(Y2s(c), In(c, j)) IN
               IF n = 0 THEN TRUE ELSE Near(c.std[j], SqrtM(Ratio(n * s2 - s * s, 16 * n * n)), 1100)
TableBad(c) ==
  IF Len(c.cnt) # NR(c) THEN {"rows"}
  ELSE Cl(\A j \in 1..NR(c) : c.cnt[j] = Cn(c, j), "count") \cup
       Cl(c.tot[1] = Len(c.rows), "total_count") \cup
       Cl(\A j \in 1..NR(c) : Near(c.pct[j], Ratio(Cn(c, j), Len(c.rows)), 2), "count_share") \cup
       Cl(c.lab = c.wlab, "labels") \cup
       (IF c.bin = 1 THEN
          Cl(\A j \in 1..NR(c) : c.ev[j] = Ev(c, j) /\ c.ne[j] = Cn(c, j) - Ev(c, j), "events") \cup
          Cl(c.tot[2] = TNe(c) /\ c.tot[3] = TEv(c), "total_events") \cup
          Cl(\A j \in (NB(c) + 1)..NR(c) : EmpOk(c, j, "event_rate", c.coef[1][j]), "event_rate_row")
        ELSE
          Cl(\A j \in 1..NR(c) : Near(c.sum[j], 250000 * SumOver(Ys(c), In(c, j)), 3), "sum") \cup
          Cl(\A j \in 1..NR(c) : Cn(c, j) = 0 \/ (Near(c.mn[j], 250000 * SetMin({c.rows[i][3] : i \in In(c, j)}), 3) /\
                                                  Near(c.mx[j], 250000 * SetMax({c.rows[i][3] : i \in In(c, j)}), 3)), "min_max") \cup
          Cl(\A j \in 1..NR(c) : Cn(c, j) > 0 \/ (c.std[j] = NANV /\ c.mn[j] = NANV /\ c.mx[j] = NANV), "statistics_of_empty_row") \cup
          Cl(\A j \in 1..NR(c) : StdOk(c, j), "std") \cup
          Cl(\A j \in 1..NR(c) : c.zer[j] = Cardinality({i \in In(c, j) : c.rows[i][3] = 0}), "zeros") \cup
          Cl(Near(c.tot[2], 250000 * SumOver(Ys(c), 1..Len(c.rows)), 3) /\
             c.tot[3] = Cardinality({i \in 1..Len(c.rows) : c.rows[i][3] = 0}), "total_sum_zeros") \cup
          Cl(\A j \in (NB(c) + 1)..NR(c) : Near(c.coef[1][j], MeanOf(c, j), 3), "mean_row"))
\* ---- curve
Clean(c) == {i \in 1..Len(c.rows) : c.rows[i][2] = 0}
Opt(c) == c.status = "OPTIMAL"
Slope(c, j) == c.coef[c.deg + 1][j]      \* leading coefficient: value (degree 0) or slope (degree 1)
Continuous(c) == c.cont = 0 \/ c.deg = 0 \/
  \A j \in 1..(NB(c) - 1) :
     LET l == Horner(c, j, c.spl8[j], 8, 0)  r == Horner(c, j + 1, c.spl8[j], 8, 0) IN ~IsOrd(l) \/ ~IsOrd(r) \/ Abs(l - r) <= 2 * SolTol(c)
Up(c) == IF c.deg = 0 THEN \A j \in 1..(NB(c) - 1) : Slope(c, j + 1) >= Slope(c, j) - SolTol(c) ELSE \A j \in 1..NB(c) : Slope(c, j) >= -SolTol(c)
Down(c) == IF c.deg = 0 THEN \A j \in 1..(NB(c) - 1) : Slope(c, j + 1) <= Slope(c, j) + SolTol(c) ELSE \A j \in 1..NB(c) : Slope(c, j) <= SolTol(c)
OneTurn(c, s) == \E t \in 0..NB(c) : \A j \in 1..NB(c) : IF j <= t THEN s * Slope(c, j) >= -SolTol(c) ELSE s * Slope(c, j) <= SolTol(c)
Fin(c) == \A j \in 1..NB(c) : Abs(Slope(c, j)) < 1000 * SC
\* exact comparison of the target means of two bins
BinMeanLt(c, a, b) == SumOver(Ys(c), In(c, a)) * Cn(c, b) < SumOver(Ys(c), In(c, b)) * Cn(c, a)
AutoUp(c) == NB(c) > 1 /\ \A j \in 1..(NB(c) - 1) : BinMeanLt(c, j, j + 1)
AutoDown(c) == NB(c) > 1 /\ \A j \in 1..(NB(c) - 1) : BinMeanLt(c, j + 1, j)
TrendBad(c) ==
  IF c.deg > 1 \/ ~Fin(c) THEN {}
  ELSE IF c.deg = 0 /\ c.cont = 0 /\ c.objective # "l2" THEN {}      \* bins are solved separately
  ELSE IF c.deg = 0 /\ c.cont = 0 /\ (c.fb[1] # NONEV \/ c.fb[2] # NONEV) THEN {}
  ELSE Cl(c.trend # "ascending" \/ Up(c), "ascending") \cup Cl(c.trend # "descending" \/ Down(c), "descending") \cup
       Cl(c.trend # "auto" \/ ~AutoUp(c) \/ Up(c), "auto_ascending") \cup
       Cl(c.trend # "auto" \/ ~AutoDown(c) \/ Down(c), "auto_descending") \cup
       Cl(c.trend # "peak" \/ OneTurn(c, 1), "peak") \cup Cl(c.trend # "valley" \/ OneTurn(c, -1), "valley") \cup
       Cl(c.trend # "convex" \/ c.deg # 1 \/ \A j \in 1..(NB(c) - 1) : Slope(c, j + 1) >= Slope(c, j) - SolTol(c), "convex") \cup
       Cl(c.trend # "concave" \/ c.deg # 1 \/ \A j \in 1..(NB(c) - 1) : Slope(c, j + 1) <= Slope(c, j) + SolTol(c), "concave")
\* bounds of the fit hold at the records (a turning trend is bounded at its turning point only approximately)
Bounded(c) ==
  IF c.sub = 1 \/ c.trend \in {"peak", "valley", "auto"} \/ (c.deg > 1 /\ c.trend # "none") THEN TRUE
  ELSE \A i \in Clean(c) : LET v == Poly(c, BinOf(c, c.rows[i][1]), c.rows[i][1]) IN
       ~IsOrd(v) \/ ((c.fb[1] = NONEV \/ v >= c.fb[1] - SolTol(c)) /\ (c.fb[2] = NONEV \/ v <= c.fb[2] + SolTol(c)))
\* ---- least squares: the residual is orthogonal to the admissible directions
Free(c) == c.trend = "none" /\ c.objective = "l2" /\ c.fb[1] = NONEV /\ c.fb[2] = NONEV /\ c.sub = 0 /\ (c.bin = 0 \/ c.est # <<>>)
Target(c, i) == IF c.bin = 0 THEN 250000 * c.rows[i][3] ELSE Ratio(c.est[1] + c.est[2] * c.rows[i][1], 128)
Res(c) == [i \in 1..Len(c.rows) |-> IF c.rows[i][2] # 0 THEN 0 ELSE (Poly(c, BinOf(c, c.rows[i][1]), c.rows[i][1]) - Target(c, i) + 50) \div 100]
Dir(c, s8) == [i \in 1..Len(c.rows) |-> IF c.rows[i][2] # 0 \/ 2 * c.rows[i][1] <= s8 THEN 0 ELSE 2 * c.rows[i][1] - s8]
ResTol(c) == Len(c.rows) * (1 + Tol(c) \div 100)
DotTo(a, b) == SumOver([i \in 1..Len(a) |-> a[i] * b[i]], 1..Len(a))
AllOrd(c) == \A i \in Clean(c) : IsOrd(Poly(c, BinOf(c, c.rows[i][1]), c.rows[i][1]))
Orthogonal(c) ==
  IF ~Free(c) \/ ~AllOrd(c) \/ ~Opt(c) THEN TRUE
  ELSE LET R == Res(c) IN
       IF c.cont = 0 THEN
         /\ \A j \in 1..NB(c) : Abs(SumOver(R, In(c, j))) <= ResTol(c)
         /\ c.deg = 0 \/ \A j \in 1..NB(c) : Abs(SumOver([i \in 1..Len(R) |-> R[i] * c.rows[i][1]], In(c, j))) <= ResTol(c) * 24
       ELSE IF c.deg = 0 THEN TRUE
       ELSE /\ Abs(SumOver(R, Clean(c))) <= ResTol(c)
            /\ Abs(DotTo(R, Dir(c, 0))) <= ResTol(c) * 48
            /\ c.deg > 1 \/ c.exact = 0 \/ \A j \in 1..(NB(c) - 1) : Abs(DotTo(R, Dir(c, c.spl8[j]))) <= ResTol(c) * 48
\* a quantile of the target in every bin (separate constants)
Quantile(c) == IF c.deg # 0 \/ c.cont = 1 \/ c.bin = 1 \/ c.sub = 1 \/ c.fb[1] # NONEV \/ c.fb[2] # NONEV \/ ~Opt(c) \/
                  c.objective \notin {"l1", "quantile"} \/ c.trend # "none" THEN TRUE
  ELSE LET q4 == IF c.objective = "l1" THEN 2 ELSE c.quant \div 250000 IN
       \A j \in 1..NB(c) :
         LET n == Cn(c, j)
             below == Cardinality({i \in In(c, j) : 250000 * c.rows[i][3] < c.coef[1][j] - 2000})
             upto == Cardinality({i \in In(c, j) : 250000 * c.rows[i][3] <= c.coef[1][j] + 2000})
         IN 4 * below <= q4 * n /\ q4 * n <= 4 * upto
\* ---- the printed analysis: metrics of the predictions on the clean training records, tests of the bins
T1 == INSTANCE Table1D
CD == INSTANCE Cont1D
KK == INSTANCE MetricDefs
PRows(c) == [j \in 1..NR(c) |-> <<Cn(c, j) - Ev(c, j), Ev(c, j)>>]
CRows(c) == [j \in 1..NR(c) |-> <<Cn(c, j), SumOver(Ys(c), In(c, j)), SumOver(Y2s(c), In(c, j)), 0, 0, 0, Cn(c, j)>>]
\* mean over all records of the divergence density of the clean records, plus the terms of the other rows
DensOK(c) == \A i \in 1..Len(c.rep.pred) : c.rep.pred[i] > 10000 /\ c.rep.pred[i] < SC - 10000
DensJ(p, q) == MulM(p - q, Ln(p) - Ln(q))
DensS(p, q) == (MulM(p, Ln(2 * p) - Ln(p + q)) + MulM(q, Ln(2 * q) - Ln(p + q))) \div 2
DensH(p, q) == LET d == SqrtM(p) - SqrtM(q) IN MulM(d, d) \div 2
DensT(p, q) == LET d == Abs(p - q) IN MulM(d, DivM(d, p + q))
Dens(name, p, q) == CASE name = "iv" -> DensJ(p, q) [] name = "js" -> DensS(p, q)
                      [] name = "hellinger" -> DensH(p, q) [] OTHER -> DensT(p, q)
Mixd(r) == r[1] > 0 /\ r[2] > 0
DivOk(c, name, got) ==
  LET rows == PRows(c)  T == <<TNe(c), TEv(c)>>  N == T[1] + T[2]  nb == NB(c)
      pn == Ratio(T[1], N)  pe == Ratio(T[2], N)
      cl == Sum([i \in 1..Len(c.rep.pred) |->
              LET e == c.rep.pred[i] IN Dens(name, DivM(SC - e, pn), DivM(e, pe)) \div N])
      row(j) == IF Mixd(rows[j]) THEN T1!Div(name, rows[j], T) ELSE 0
      sp == Sum([j \in 1..c.d |-> row(nb + j)])
      ms == row(NR(c))
      tol == 60 + 2 * N
  \* several special rows: their sum or their average
  IN got >= cl + ms + sp \div c.d - tol /\ got <= cl + ms + sp + tol
AvgPrec(y, r) ==     \* sum over thresholds of precision times gain in recall
  LET np == Cardinality({i \in 1..Len(y) : y[i] # 0})
      ge(v) == Cardinality({i \in 1..Len(y) : r[i] >= v})
      eg(v) == Cardinality({i \in 1..Len(y) : r[i] >= v /\ y[i] # 0})
      m == SetMax(RangeOf(r))
  IN Sum([v \in 1..(m + 1) |-> LET g == eg(v - 1) - eg(v) IN IF g = 0 THEN 0 ELSE Ratio(g * eg(v - 1), np * ge(v - 1))])
RepB(c) ==
  LET a == c.rep  n == Len(a.y)  rows == PRows(c)  nb == NB(c)
      bins == SubSeq(rows, 1, nb)
      yy == [i \in 1..n |-> IF a.y[i] # 0 THEN 1 ELSE 0]
      k == [y |-> yy, s |-> a.rank]
      ps == [i \in 1..Len(a.tests) |-> a.tests[i][4]]
      twice == [i \in 1..nb |-> <<2 * bins[i][1] + 1, 2 * bins[i][2] + 1>>]
      cd == nb >= 2 /\ T1!ChiDefined(bins)
  IN Cl(\A i \in 1..6 : Near(a.props[i], <<a.m[1], a.m[2], a.m[3], a.m[4], a.m[5], a.m[6]>>[i], 2), "report_values") \cup
     Cl(Near(a.m[1], KK!GiniOf(k), 3), "report_gini") \cup
     Cl(\E v \in {KK!Ks1(k), KK!Ks2(k)} : Near(a.m[6], Ratio(v, KK!NP(k) * KK!NN(k)), 3), "report_ks") \cup
     Cl(Near(a.m[7], AvgPrec(a.y, a.rank), 5 + n), "report_average_precision") \cup
     Cl(Near(a.m[8], Sum([i \in 1..n |-> LET d == SC * yy[i] - a.pred[i] IN MulM(d, d)]) \div n, 10), "report_brier") \cup
     (IF ~DensOK(c) THEN {} ELSE
        Cl(DivOk(c, "iv", a.m[2]), "report_iv") \cup Cl(DivOk(c, "js", a.m[3]), "report_js") \cup
        Cl(DivOk(c, "hellinger", a.m[4]), "report_hellinger") \cup Cl(DivOk(c, "triangular", a.m[5]), "report_triangular")) \cup
     Cl(Near(a.hhi, T1!HHIOf(rows), 4 + Len(rows)) /\ Near(a.hhin, T1!HHIn(rows), 10 + 2 * Len(rows)), "report_hhi") \cup
     Cl(~cd \/ Near(MulM(a.cramer, a.cramer), DivM(T1!ChiOf(bins), T1!Size(T1!Tot2(bins)) * SC), 40 + 2 * nb), "report_cramer") \cup
     Cl(nb >= 2 \/ a.cramer = 0, "report_cramer") \cup
     Cl(Len(a.tests) = nb - 1 /\ \A i \in 1..Min2(nb - 1, Len(a.tests)) :
          /\ a.tests[i][1] = i - 1 /\ a.tests[i][2] = i
          /\ NearR(a.tests[i][3], T1!ChiOf(<<twice[i], twice[i + 1]>>) \div 2, 30, 300)
          /\ Near(a.tests[i][5] + a.tests[i][6], SC, 2), "report_tests") \cup
     Cl(a.qs = a.p_qs \/ Near(a.qs, a.p_qs, 2), "quality_score_reported") \cup
     Cl(~AllOrdS(ps) \/ ~IsOrd(a.m[2]) \/ Near(a.qs, QScore(a.m[2], ps, a.hhin), 60), "quality_score")
RepC(c) ==
  LET a == c.rep  n == Len(a.y)  rows == CRows(c)  nb == NB(c)  N == Len(c.rows)
      sane == \A i \in 1..n : Abs(a.pred[i]) < 30 * SC
      e == [i \in 1..n |-> 250000 * a.y[i] - a.pred[i]]
      ae == [i \in 1..n |-> Abs(e[i])]
      h == Sum([j \in 1..NR(c) |-> MulM(Ratio(Cn(c, j), N), Ratio(Cn(c, j), N))])
      ps == [i \in 1..Len(a.tests) |-> a.tests[i][4]]
      sq == Sum([i \in 1..n |-> MulM(ae[i], ae[i]) \div n])
      sy == Sum(a.y)
      vy == Ratio(n * Sum([i \in 1..n |-> a.y[i] * a.y[i]]) - sy * sy, 16 * n * n)
  IN Cl(\A i \in 1..10 : Near(a.m[i], a.lib[i], 4), "report_metrics") \cup
     (IF ~sane THEN {} ELSE
       Cl(Near(a.m[1], Sum([i \in 1..n |-> ae[i] \div n]), 10 + n), "report_mae") \cup
       Cl(Near(a.m[2], sq, 10 + n), "report_mse") \cup
       Cl(Near(a.m[3], KK!Median(ae), 10), "report_median_ae") \cup
       Cl(vy < 20000 \/ sq \div vy > 100 \/ NearR(SC - a.m[5], DivM(sq, vy), 30, 2000), "report_r2")) \cup
     Cl(Near(a.hhi, h, 4 + Len(rows)) /\ Near(a.hhin, DivM(h - SC \div NR(c), SC - SC \div NR(c)), 10 + 2 * NR(c)), "report_hhi") \cup
     Cl(Len(a.tests) = nb - 1, "report_tests") \cup
     (IF Len(a.tests) # nb - 1 THEN {} ELSE UNION {CD!TestOk(a.tests[i], i, rows[i], rows[i + 1]) : i \in 1..(nb - 1)}) \cup
     Cl(~AllOrdS(ps) \/ Near(a.qs, CQScore(SC * 1999, ps, a.hhin), 600), "quality_score")
Failed(c) ==
  IF c.exc = "declined" THEN {} ELSE IF c.exc # "" THEN {"exception"}
  ELSE LET tb == TableBad(c) IN
       tb \cup Cl(Len(c.spl8) = 0 \/ IsStrict(c.spl8), "splits_order") \cup
       Cl(c.same = 1 \/ Near(c.ivs[1], c.ivs[2], 200), "splits_not_of_optimal_binning") \cup
       Cl(c.ft = 1, "fit_transform") \cup
       (IF "rows" \in tb THEN {}
        ELSE UNION {QueryBad(c, c.qs[k]) : k \in 1..Len(c.qs)} \cup
             (IF c.bin = 1 THEN RepB(c) ELSE RepC(c)) \cup
             (IF Opt(c) THEN TrendBad(c) \cup Cl(Bounded(c), "bounds") \cup Cl(c.exact = 0 \/ Continuous(c), "continuity") \cup
                Cl(Orthogonal(c), "least_squares") \cup Cl(Quantile(c), "quantile") ELSE {}))
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
