--------------------------------- MODULE V_Multi ---------------------------------
\* Executions of the numerical binning with a multiclass target.
\* vals[i] = <<position, <<records of each class>>, number of records>>
EXTENDS PreBin, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Prop  == IOEnv.PROP

K(c) == c.K
KZero(c) == [j \in 1..c.K |-> 0]
KAdd(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
RECURSIVE KAcc(_, _, _, _)
KAcc(c, s, a, b) == IF a > b THEN KZero(c) ELSE KAdd(KAcc(c, s, a, b - 1), s[b])
KTot(c, s) == KAcc(c, s, 1, Len(s))
KPre(c, s, cuts) == [k \in 1..(Len(cuts) + 1) |->
   KAcc(c, s, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1, IF k = Len(cuts) + 1 THEN Len(s) ELSE cuts[k])]
KBins(c, pb, ends) == [k \in 1..Len(ends) |-> KAcc(c, pb, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k])]
KSize(v) == Sum(v)
\* one class against the others
Ovr(v, j) == <<Sum(v) - v[j], v[j]>>
OvrAll(s, j) == [k \in 1..Len(s) |-> Ovr(s[k], j)]
G0(c) == [i \in 1..Len(c.vals) |-> c.vals[i][2]]
\* classes that occur among the clean records
Cls(c) == {j \in 1..c.K : KTot(c, G0(c))[j] > 0}
VPos(c) == [i \in 1..Len(c.vals) |-> c.vals[i][1]]
CandOf(c) ==
  CASE c.method = "uniform"  -> UniformSplits(VPos(c), c.nb)
    [] c.method = "quantile" -> QuantileSplits(VPos(c), [i \in 1..Len(c.vals) |-> c.vals[i][3]], c.nb)
    [] OTHER -> c.cand
Below(vp, s) == Cardinality({i \in 1..Len(vp) : vp[i] < s})
CutRanks(c) == LET vp == VPos(c)  cd == CandOf(c) IN [j \in 1..Len(cd) |-> <<Below(vp, cd[j]), j>>]
SplRanks(c) == LET vp == VPos(c) IN [j \in 1..Len(c.spl) |-> Below(vp, c.spl[j])]
\* a pre-bin in which some class has no record (or all of them) may not stay
KDrop(c, v) == \E j \in Cls(c) : v[j] = 0 \/ v[j] = Sum(v)
RECURSIVE KRefine(_, _)
KRefine(c, cs) ==
  IF Len(cs) = 0 THEN cs
  ELSE LET pb == KPre(c, G0(c), [i \in 1..Len(cs) |-> cs[i][1]])  n == Len(pb) IN
       IF \E i \in 1..n : KDrop(c, pb[i])
       THEN KRefine(c, SelectIdx(cs, [i \in 1..(n - 1) |-> KDrop(c, pb[i]) \/ (i = n - 1 /\ KDrop(c, pb[n]))], 1))
       ELSE cs
Cs(c) == KRefine(c, CutRanks(c))
FixedPos(c) == {c.fixed[i] : i \in 1..Len(c.fixed)}
MustRefuse(c) == c.hasfixed = 1 /\ FixedPos(c) \cap RefinedAway(CutRanks(c), Cs(c)) # {}
SpG(c) == IF c.spdict = 1 THEN c.sp ELSE <<c.spall>>
ExpRows(c) == KPre(c, G0(c), SplRanks(c)) \o SpG(c) \o <<c.miss>>
NB(c) == Len(c.spl) + 1

\* ------------------------------------------------------------- the table
Table(c) ==
  LET ex == ExpRows(c)  n == Len(ex)  T == KTot(c, ex)  N == KSize(T) IN
  Cl(IsStrict(c.spl), "splits_increasing") \cup
  Cl(Len(c.tab) = n, "row_count") \cup
  (IF Len(c.tab) # n THEN {} ELSE
     Cl(\A i \in 1..n : c.tab[i][3] = ex[i], "row_class_counts") \cup
     Cl(\A i \in 1..n : c.tab[i][1] = KSize(ex[i]), "row_counts") \cup
     Cl(\A i \in 1..n : Near(c.tab[i][2], Ratio(KSize(ex[i]), N), 2), "count_pct") \cup
     Cl(\A i \in 1..n : \A j \in 1..c.K :
          Near(c.tab[i][4][j], IF ex[i][j] = 0 THEN 0 ELSE Ratio(ex[i][j], KSize(ex[i])), 2), "event_rates") \cup
     Cl(c.tot[1] = N /\ c.tot[2] = SC /\ c.tot[3] = T /\ \A j \in 1..c.K : Near(c.tot[4][j], Ratio(T[j], N), 2), "totals") \cup
     Cl(c.same = 1, "digits_and_totals_do_not_change_values"))
\* Jensen-Shannon divergence of the class distributions over the rows
PLn(a, b) == IF a = 0 THEN 0 ELSE MulM(Ratio(a, b), Ln(a) - Ln(b))     \* (a/b) ln(a/b)
XLnX(p) == IF p <= 0 THEN 0 ELSE MulM(p, Ln(p) - Ln(SC))               \* p micro
JSM(c, ex) ==
  LET T == KTot(c, ex)
      mix(i) == Sum([j \in 1..c.K |-> Ratio(ex[i][j], T[j])]) \div c.K
      hm == -Sum([i \in 1..Len(ex) |-> XLnX(mix(i))])
      hs == -Sum([j \in 1..c.K |-> Sum([i \in 1..Len(ex) |-> PLn(ex[i][j], T[j])])])
  IN hm - hs \div c.K
Chi(c, rows) ==
  LET T == KTot(c, rows)  N == KSize(T) IN
  Sum([i \in 1..Len(rows) |-> Sum([j \in 1..c.K |->
        LET rt == KSize(rows[i])  d == rows[i][j] * N - rt * T[j]
            e == Ratio(rt * T[j], N)  dm == Ratio(d, N) IN MulM(dm, DivM(dm, e))])])
TrendName(nm, q) ==
  CASE nm = "ascending" -> AscOK(q)
    [] nm = "descending" -> DescOK(q)
    [] nm = "peak" -> PeakOK(q)
    [] nm = "peak (concave)" -> PeakOK(q) /\ \A i \in 2..(Len(q) - 1) : 2 * Rate(q[i]) - Rate(q[i - 1]) - Rate(q[i + 1]) >= -CurvTol
    [] nm = "valley" -> ValleyOK(q)
    [] nm = "valley (convex)" -> ValleyOK(q) /\ \A i \in 2..(Len(q) - 1) : Rate(q[i - 1]) + Rate(q[i + 1]) - 2 * Rate(q[i]) >= -CurvTol
    [] nm = "no monotonic" -> ~PeakOK(q) /\ ~ValleyOK(q)
    [] nm = "undefined" -> Len(q) = 1
    [] OTHER -> FALSE
\* p-value of a chi-square statistic x at the 1%, 5%, 10% and 50% points
ChiPts == << <<6634897, 3841459, 2705543, 454936>>, <<9210340, 5991465, 4605170, 1386294>>,
             <<11344867, 7814728, 6251389, 2365974>>, <<13276704, 9487729, 7779440, 3356694>> >>
KPBand(df, x, p) ==
  df > 4 \/ ~IsOrd(x) \/ ~IsOrd(p) \/
  \A j \in 1..4 : LET al == <<10000, 50000, 100000, 500000>>[j]  q == ChiPts[df][j] IN
     (x >= q + 200 => p <= al + 100) /\ (x <= q - 200 => p >= al - 100)
An(c) ==
  LET ex == ExpRows(c)  n == Len(ex)  nb == NB(c)  an == c.an[1]
      bins == [i \in 1..nb |-> ex[i]]  N == KSize(KTot(c, ex))
      h == Sum([i \in 1..n |-> MulM(Ratio(KSize(ex[i]), N), Ratio(KSize(ex[i]), N))])
  IN
  IF an.exc # "" THEN {"analysis_runs"} ELSE
  Cl(Near(an.js, JSM(c, ex), 40 + 10 * n) /\ Near(an.js, an.p_js, 1), "analysis_js") \cup
  Cl(Near(an.hhi, h, 4 + n) /\ Near(an.hhin, DivM(h - SC \div n, SC - SC \div n), 10 + 2 * n), "analysis_hhi") \cup
  Cl(IF nb < 2 THEN an.cramer = 0
     ELSE Near(MulM(an.cramer, an.cramer), DivM(Chi(c, bins), KSize(KTot(c, bins)) * Min2(c.K - 1, nb - 1) * SC), 60), "analysis_cramer") \cup
  (LET ps == [i \in 1..Len(an.tests) |-> an.tests[i][4]] IN
   Cl(Near(an.qs, an.p_qs, 2), "quality_score_reported") \cup
   Cl(~AllOrdS(ps) \/ Near(an.qs, QScore(DivM(an.js, Ln(c.K)), ps, an.hhin), 100), "quality_score")) \cup
  Cl(Len(an.tests) = nb - 1 /\ \A i \in 1..Min2(nb - 1, Len(an.tests)) :
       an.tests[i][1] = i - 1 /\ an.tests[i][2] = i /\ NearR(an.tests[i][3], Chi(c, <<bins[i], bins[i + 1]>>), 40, 400)
       /\ KPBand(c.K - 1, an.tests[i][3], an.tests[i][4]), "analysis_tests") \cup
  Cl(Len(an.trends) = c.K /\ \A j \in 1..Min2(c.K, Len(an.trends)) : TrendName(an.trends[j], OvrAll(bins, j)), "reported_trend")
\* ------------------------------------------------------------- transform
WoeOf(v, T, j) == LET b == Ovr(v, j)  t == Ovr(T, j) IN
  IF b[1] = 0 \/ b[2] = 0 THEN 0 ELSE (Ln(b[1]) - Ln(b[2])) + (Ln(t[2]) - Ln(t[1]))
MeanWoe(c, v, T) == Sum([j \in 1..c.K |-> WoeOf(v, T, j)]) \div c.K
WMeanWoe(c, v, T) == Sum([j \in 1..c.K |-> MulM(WoeOf(v, T, j), Ratio(T[j], KSize(T)))])
RowOf(c, r) == CASE r[1] = 0 -> 1 + Cardinality({j \in 1..Len(c.spl) : c.spl[j] <= r[2]})
                 [] r[1] = 1 -> NB(c) + IF c.spdict = 1 THEN r[2] ELSE 1
                 [] r[1] = 2 -> Len(c.tab)
TransRow(c, t, r, ex, T) ==
  LET k == RowOf(c, r)
      asked == (r[1] = 1 /\ t.ms = 1) \/ (r[1] = 2 /\ t.mm = 1)
      num == IF r[1] = 1 THEN t.msv ELSE t.mmv
      isint == IF r[1] = 1 THEN t.msi ELSE t.mmi
  IN Cl(IF asked THEN r[3] = num ELSE Near(r[3], MeanWoe(c, ex[k], T), 12), "transform_mean_woe") \cup
     Cl(IF asked THEN r[4] = num ELSE Near(r[4], WMeanWoe(c, ex[k], T), 16), "transform_weighted_mean_woe") \cup
     Cl(IF asked /\ isint = 1 THEN r[5] * SC = num ELSE r[5] = k - 1, "transform_indices") \cup
     Cl(k \in RangeOf(r[6]), "transform_label")
Trans(c) ==
  LET ex == ExpRows(c)  T == KTot(c, ex) IN
  UNION {LET t == c.probe[j] IN
         Cl(t.exc = "", "transform_runs") \cup
         UNION {TransRow(c, t, t.rows[i], ex, T) : i \in 1..Len(t.rows)} \cup
         Cl(\A i \in 1..Min2(Len(t.alone), Len(t.rows)) : t.alone[i] = t.rows[i][3], "transform_alone")
         : j \in 1..Len(c.probe)}
\* ------------------------------------------------------------- optimisation
KNumOK(o, bins) == NumOK(o, <<>>, OvrAll(bins, 1))
KSepOK(c, o, bins, band) == \A j \in 1..c.K : SepOK(o, OvrAll(bins, j), band)
KObj(c, bins, T) == Sum([j \in 1..c.K |-> DivSum("iv", OvrAll(bins, j), Ovr(T, j))])
Outcome(c) ==
  LET cs == Cs(c)  cd == CandOf(c)
      pb == KPre(c, G0(c), [i \in 1..Len(cs) |-> cs[i][1]])
      n == Len(pb)
      T == KTot(c, pb)
      o == [mins |-> IF c.o.f_mins < 0 THEN -1 ELSE CeilDiv(c.o.f_mins * c.o.ns, 64),
            maxs |-> IF c.o.f_maxs < 0 THEN -1 ELSE CeilDiv(c.o.f_maxs * c.o.ns, 64)] @@ c.o
      fx == {i \in 1..Len(cs) : cs[i][2] \in FixedPos(c)}
      ch0 == [j \in 1..Len(c.spl) |->
                LET m == {i \in 1..Len(cs) : cd[cs[i][2]] = c.spl[j]} IN IF m = {} THEN 0 ELSE SetMin(m)]
      known == \A j \in 1..Len(ch0) : ch0[j] > 0
      ch == Append(ch0, n)
      chb == KBins(c, pb, ch)
      base == {E \in EndsTab[n] : LET b == KBins(c, pb, E) IN
                 KNumOK(o, b) /\ FixedOK(fx, E) /\ KSepOK(c, o, b, 1)}
      Tr(j, tr, E, band) == TrendOK(tr, OvrAll(pb, j), E, OvrAll(KBins(c, pb, E), j), band)
      \* auto_heuristic for all the classes at once keeps the exact peak and valley trends
      fam(j) == TrendFamily(c.o.trends[j]) \cup (IF c.o.trends[j] = "auto_heuristic" THEN {"peak", "valley"} ELSE {})
      combos == {f \in [1..c.K -> UNION {fam(j) : j \in 1..c.K}] : \A j \in 1..c.K : f[j] \in fam(j)}
      tol == 100 + 60 * c.K
      Opt(f) ==
        LET sure == {E \in base : \A j \in 1..c.K : Tr(j, f[j], E, 1)} IN
        IF c.status = "INFEASIBLE" THEN sure = {}
        ELSE /\ \A j \in 1..c.K : Tr(j, f[j], ch, -1)
             /\ LET mine == KObj(c, chb, T) IN
                \A E \in sure : LET v == KObj(c, KBins(c, pb, E), T) IN
                   mine >= v - tol - (IF c.o.mip = 1 THEN MulM(Abs(v), 200) ELSE 0)
  IN
  IF n < 2 THEN Cl(c.status = "OPTIMAL" /\ Len(c.spl) = 0, "single_prebin")
  ELSE IF ~known THEN {"unknown_split"}
  ELSE Cl(c.status \in {"OPTIMAL", "INFEASIBLE"}, "status_known") \cup
       Cl(c.status = "INFEASIBLE" => Len(ch0) = 0, "infeasible_single_bin") \cup
       (IF c.status # "OPTIMAL" THEN {} ELSE
          Cl(KNumOK(o, chb), "number_limits") \cup Cl(KSepOK(c, o, chb, -1), "separation_limits") \cup
          Cl(\A j \in 1..c.K : ShapeOK(c.o.trends[j], OvrAll(chb, j)), "trend_shape") \cup
          Cl(FixedOK(fx, ch), "fixed_kept")) \cup
       Cl(\E f \in combos : Opt(f), "optimal_or_infeasible")
Failed(c) ==
  IF c.exc # "" THEN
     IF MustRefuse(c) THEN Cl(c.exc = "ValueError", "refusal_is_value_error") ELSE {"unexpected_error"}
  ELSE IF MustRefuse(c) THEN {"fixed_split_silently_dropped"}
  ELSE LET t == Table(c) IN
       IF t # {} THEN t ELSE An(c) \cup Trans(c) \cup Outcome(c)
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
