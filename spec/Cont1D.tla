--------------------------------- MODULE Cont1D ---------------------------------
\* The one-dimensional binning problem for a continuous target.
\* A group of records is <<n, s, ss, min, max, zeros, raw>>: weighted number, sum,
\* sum of squares, minimum, maximum, weighted zeros and number of records;
\* targets are in quarter units.  As a bin of Bin1D a group is <<n - s, s>>, whose
\* Size is n and whose Rate is the mean (in quarter units).
EXTENDS PreBin, TTab

GZero == <<0, 0, 0, 0, 0, 0, 0>>
GAdd(a, b) ==
  IF a[7] = 0 THEN b ELSE IF b[7] = 0 THEN a
  ELSE <<a[1] + b[1], a[2] + b[2], a[3] + b[3], Min2(a[4], b[4]), Max2(a[5], b[5]), a[6] + b[6], a[7] + b[7]>>
RECURSIVE GAcc(_, _, _)
GAcc(s, a, b) == IF a > b THEN GZero ELSE GAdd(GAcc(s, a, b - 1), s[b])
GTot(s) == GAcc(s, 1, Len(s))
GPre(s, cuts) == [k \in 1..(Len(cuts) + 1) |->
     GAcc(s, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1, IF k = Len(cuts) + 1 THEN Len(s) ELSE cuts[k])]
GBins(pb, ends) == [k \in 1..Len(ends) |-> GAcc(pb, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k])]
AsBin(g) == <<g[1] - g[2], g[2]>>
AsBins(s) == [k \in 1..Len(s) |-> AsBin(s[k])]
QMean(g) == IF g[1] = 0 THEN 0 ELSE Ratio(g[2], g[1])          \* quarter units, micro
RMean(g) == IF g[1] = 0 THEN 0 ELSE Ratio(g[2], 4 * g[1])      \* micro
\* ------------------------------------------------------------ objective
RECURSIVE DevTo(_, _, _)
DevTo(bins, m, k) == IF k = 0 THEN 0 ELSE Abs(Rate(bins[k]) - m) + DevTo(bins, m, k - 1)
CObj(bins, T, gamma) ==        \* quarter units, micro
  DevTo(bins, Ratio(T[2], Size(T)), Len(bins))
    - IF gamma = 0 THEN 0 ELSE MulM(Ratio(SizeSpread(bins), Size(T)), gamma * 4000)
\* ------------------------------------------------------------ Welch test
\* variance of the mean of a group (population variance / n), quarter^2, micro
VM(g) == LET a == g[1] * g[3] - g[2] * g[2] IN
  IF g[1] <= 120 THEN Ratio(a, g[1] * g[1] * g[1]) ELSE Ratio(a, g[1] * g[1]) \div g[1]
HasVar(g) == g[1] * g[3] - g[2] * g[2] > 0
WDf(a, b) ==        \* degrees of freedom times 100
  LET v1 == VM(a)  v2 == VM(b)  r == DivM(v1, v1 + v2)  q == SC - r IN
  (100 * SC) \div Max2(1, (MulM(r, r) \div (a[1] - 1)) + (MulM(q, q) \div (b[1] - 1)))
Crit(al, df) == TSq(al)[IF df < 1 THEN 1 ELSE IF df > 120 THEN 121 ELSE df]
Untestable(a, b) == a[1] <= 1 \/ b[1] <= 1 \/ ~(HasVar(a) \/ HasVar(b))
TestBig(a, b) ==   \* the sum of the variances, micro of squared units
  (VM(a) + VM(b)) \div 16
\* is the difference significant at level al percent ? band as in Feasible
TOk(a, b, al, band) ==
  IF Untestable(a, b) THEN band < 0
  ELSE LET d == Abs(RMean(a) - RMean(b))
           v == TestBig(a, b)
           df == WDf(a, b)
           c == IF band > 0 THEN Crit(al, (df - 2) \div 100) ELSE Crit(al, (df + 102) \div 100)
           d2 == MulM(d, d)
       IN IF ((v \div SC) + 1) * ((c \div 1000) + 1) > 1500 THEN FALSE
          ELSE LET m == MulM(v, c * 1000) IN d2 >= m + band * (m \div 100 + 20)
CSepOK(o, g, bins, band) ==
  LET k == Len(bins) IN
  /\ (o.diff > 0 => \A i \in 1..(k - 1) : DiffOk(bins[i], bins[i + 1], o.diff, band))
  /\ (o.pv > 0 =>
        IF o.polall = 1 THEN \A i, j \in 1..k : i < j => TOk(g[i], g[j], o.pv, band)
        ELSE \A i \in 1..(k - 1) : TOk(g[i], g[i + 1], o.pv, band))
COpts(o) == [mins |-> IF o.f_mins < 0 THEN -1 ELSE CeilDiv(o.f_mins * o.ns, 64),
             maxs |-> IF o.f_maxs < 0 THEN -1 ELSE CeilDiv(o.f_maxs * o.ns, 64)] @@ o
CFeasible(o, tr, fixed, pb, pg, ends, bins, band) ==
  /\ NumOK(o, ends, bins)
  /\ FixedOK(fixed, ends)
  /\ TrendOK(tr, pb, ends, bins, band)
  /\ CSepOK(o, GBins(pg, ends), bins, band)
CutsLost(g, cs) ==     \* a chosen split must leave records on both sides
  \E i \in 1..Len(g) : g[i][1] = 0

\* ------------------------------------------------- the table of a fit
RowOk(r, g, T) ==
  Cl(r[1] = g[1] /\ r[2] = g[2], "row_count_and_sum") \cup
  Cl(Near(r[3], Ratio(g[1], T[1]), 2), "count_pct") \cup
  Cl(Near(r[4], RMean(g), 2), "mean") \cup
  Cl(r[8] = g[6], "zeros") \cup
  (IF g[7] = 0 THEN {} ELSE
     Cl(IsOrd(r[5]) /\ Near(MulM(r[5], r[5]), Ratio(g[1] * g[3] - g[2] * g[2], 16 * g[1] * g[1]), 60), "std") \cup
     Cl(r[6] = g[4] /\ r[7] = g[5], "min_max")) \cup
  Cl(Near(r[9], RMean(g) - RMean(T), 3), "woe") \cup
  Cl(Near(r[10], MulM(Abs(RMean(g) - RMean(T)), Ratio(g[1], T[1])), 24), "iv")
TableOk(c, ex) ==
  LET n == Len(ex)  T == GTot(ex)
      sw == SumTo([i \in 1..n |-> Abs(RMean(ex[i]) - RMean(T))], n)
      si == SumTo([i \in 1..n |-> c.tab[i][10]], n)
      t == c.tot
  IN Cl(Len(c.tab) = n, "row_count") \cup
     (IF Len(c.tab) # n THEN {} ELSE
        UNION {RowOk(c.tab[i], ex[i], T) : i \in 1..n} \cup
        Cl(T[7] = c.all[7] /\ t[1] = c.all[1] /\ t[2] = c.all[2] /\ t[3] = SC /\ Near(t[4], RMean(c.all), 2), "totals") \cup
        Cl(t[6] = c.all[4] /\ t[7] = c.all[5] /\ t[8] = c.all[6], "totals_min_max_zeros") \cup
        Cl(Near(t[9], sw, 8 + 3 * n) /\ Near(t[10], si, 4 + n), "totals_woe_iv") \cup
        Cl(c.same = 1, "digits_and_totals_do_not_change_values"))
CHHI(ex) == LET N == GTot(ex)[1] IN Sum([i \in 1..Len(ex) |-> MulM(Ratio(ex[i][1], N), Ratio(ex[i][1], N))])
TestVals(t, a, b) ==
  (IF Untestable(a, b) THEN {}
   ELSE LET d == RMean(a) - RMean(b)  v == TestBig(a, b)
            small == Abs(t[3]) > 40 * SC \/ v < 2000 IN
     Cl(IsOrd(t[3]) /\ IsOrd(t[4]) /\ t[4] >= 0 /\ t[4] <= SC, "test_values") \cup
     (IF ~IsOrd(t[3]) \/ small THEN {} ELSE
       LET q == MulM(MulM(t[3], t[3]), v)  m == MulM(d, d) IN
       Cl(Abs(q - m) <= m \div 100 + 30 /\ (Abs(d) < 100 \/ (t[3] > 0) = (d > 0)), "test_statistic")) \cup
     (IF ~IsOrd(t[4]) THEN {} ELSE
       Cl(\A al \in {5, 10, 20, 50} :
            /\ (TOk(a, b, al, 1) => t[4] <= al * 10000 + 50)
            /\ (~TOk(a, b, al, -1) => t[4] >= al * 10000 - 50), "test_p_value")))
TestOk(t, i, a, b) == Cl(t[1] = i - 1 /\ t[2] = i, "test_pair") \cup TestVals(t, a, b)
\* the normalised sum of WoEs and the quality score of an analysis (t: all the records)
CQual(an, t, f1) ==
  LET ps == [i \in 1..Len(an.tests) |-> an.tests[i][4]]  m == Abs(RMean(t))
      skip == (t[2] = 0 /\ f1 = 0) \/ (m < 2000 /\ m > 0) \/ ~IsOrd(an.rw) \/ ~IsOrd(an.woe)
      rw == IF t[2] = 0 THEN an.woe ELSE DivM(an.woe, m)
      big == m > 0 /\ an.woe \div m > 1500 IN
  Cl(an.qs = an.p_qs, "quality_score_reported") \cup
  (IF skip \/ big THEN {} ELSE
     Cl(NearR(an.rw, rw, 20, 1000), "woe_normalized") \cup
     Cl(~AllOrdS(ps) \/ Near(an.qs, CQScore(an.rw, ps, an.hhin), 60), "quality_score"))
CTrendName(nm, q) ==
  CASE nm = "ascending" -> AscOK(q)
    [] nm = "descending" -> DescOK(q)
    [] nm = "peak" -> PeakOK(q)
    [] nm = "peak (concave)" -> PeakOK(q) /\ \A i \in 2..(Len(q) - 1) : 2 * Rate(q[i]) - Rate(q[i - 1]) - Rate(q[i + 1]) >= -CurvTol
    [] nm = "valley" -> ValleyOK(q)
    [] nm = "valley (convex)" -> ValleyOK(q) /\ \A i \in 2..(Len(q) - 1) : Rate(q[i - 1]) + Rate(q[i + 1]) - 2 * Rate(q[i]) >= -CurvTol
    [] nm = "no monotonic" -> ~PeakOK(q) /\ ~ValleyOK(q)
    [] nm = "undefined" -> Len(q) = 1
    [] OTHER -> FALSE
AnOk(c, ex, nb) ==
  IF Len(c.an) = 0 THEN {} ELSE
  LET an == c.an[1]  bins == [i \in 1..nb |-> ex[i]]  n == Len(ex)  h == CHHI(ex) IN
  IF an.exc # "" THEN {"analysis_runs"} ELSE
  Cl(Near(an.iv, c.tot[10], 1) /\ Near(an.p_iv, an.iv, 1) /\ Near(an.woe, c.tot[9], 1) /\ Near(an.p_woe, an.woe, 1), "analysis_iv_woe") \cup
  Cl(Near(an.hhi, h, 4 + n) /\ Near(an.hhin, DivM(h - SC \div n, SC - SC \div n), 10 + 2 * n), "analysis_hhi") \cup
  Cl(Len(an.tests) = nb - 1, "number_of_tests") \cup
  CQual(an, GTot(ex), c.f1) \cup
  \* equal means of scaled targets may differ in the last place
  Cl((\E i \in 1..nb : bins[i][1] = 0)
     \/ (c.f1 = 0 /\ \E i, j \in 1..nb : i < j /\ bins[i][2] * bins[j][1] = bins[j][2] * bins[i][1])
     \/ CTrendName(an.trend, AsBins(bins)), "reported_trend")

\* ------------------------------------------------- transform of one element
\* r = <<kind, where, mean, index, rows with the label, label is the unknown one>>
TransRow(c, t, r, k) ==
  LET asked == (r[1] = 1 /\ t.ms = 1) \/ (r[1] = 2 /\ t.mm = 1)
      num == IF r[1] = 1 THEN t.msv ELSE t.mmv
      isint == IF r[1] = 1 THEN t.msi ELSE t.mmi
  IN IF k = 0
     THEN Cl(IF t.cu = 1 THEN r[3] = t.cuw ELSE Near(r[3], c.tot[4], 2), "unknown_mean") \cup
          Cl(r[4] = (IF t.cu = 1 THEN t.cui ELSE -1), "unknown_index") \cup Cl(r[6] = 1, "unknown_label")
     ELSE Cl(IF asked THEN r[3] = num ELSE Near(r[3], c.tab[k][4], 1), "transform_mean") \cup
          Cl(IF asked /\ isint = 1 THEN r[4] * SC = num ELSE r[4] = k - 1, "transform_indices") \cup
          Cl(k \in RangeOf(r[5]), "transform_label")
TransOk(c, RowOf(_)) ==
  UNION {LET t == c.probe[j] IN
         Cl(t.exc = "", "transform_runs") \cup
         UNION {TransRow(c, t, t.rows[i], RowOf(t.rows[i])) : i \in 1..Len(t.rows)} \cup
         Cl(\A i \in 1..Min2(Len(t.alone), Len(t.rows)) : t.alone[i] = t.rows[i][3], "transform_alone")
         : j \in 1..Len(c.probe)}
SpG(c) == IF c.spdict = 1 THEN c.sp ELSE <<c.spall>>

\* ------------------------------------------------- outcome of the optimisation
\* pg: groups of the pre-bins; ch0: pre-bin ends of the returned splits (0: none)
COutcome(c, pg, fx, ch0) ==
  LET n == Len(pg)
      pb == AsBins(pg)
      T == AsBin(GTot(pg))
      o == COpts(c.o)
      known == \A j \in 1..Len(ch0) : ch0[j] > 0
      ch == Append(ch0, n)
      chb == BinsOf(pb, ch)
      tol == 250
      tolg == IF c.o.gamma > 0 THEN Size(T) * 20 + 40 ELSE 0
      cand == EndsTab[n]
      Opt(tr) ==
        LET B == [E \in cand |-> BinsOf(pb, E)]
            sure == {E \in cand : CFeasible(o, tr, fx, pb, pg, E, B[E], 1)}
        IN IF c.status = "INFEASIBLE" THEN sure = {}
           ELSE /\ CFeasible(o, tr, fx, pb, pg, ch, chb, -1)
                /\ LET mine == CObj(chb, T, c.o.gamma) IN
                   \A E \in sure : mine >= CObj(B[E], T, c.o.gamma) - tol - tolg
  IN
  IF ~known THEN {"unknown_split"}
  ELSE Cl(c.status \in {"OPTIMAL", "INFEASIBLE"}, "status_known") \cup
       Cl(c.status = "INFEASIBLE" => Len(ch0) = 0, "infeasible_single_bin") \cup
       (IF c.status # "OPTIMAL" THEN {} ELSE
          Cl(NumOK(o, ch, chb), "number_limits") \cup
          Cl(CSepOK(o, GBins(pg, ch), chb, -1), "separation_limits") \cup
          Cl(ShapeOK(c.o.trend, chb), "trend_shape") \cup
          Cl(fx \subseteq RangeOf(ch0), "fixed_kept")) \cup
       Cl(\E tr \in TrendFamily(c.o.trend) : Opt(tr), "optimal_or_infeasible")
================================================================================
