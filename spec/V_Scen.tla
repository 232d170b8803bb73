--------------------------------- MODULE V_Scen ---------------------------------
\* Executions of the scenario-based binning.  The candidate splits cut the
\* clean records of every scenario; a pre-bin that is pure in some scenario is
\* refined away; one merging is chosen for all scenarios, feasible in each of them,
\* and it maximises the weighted sum of the scenarios' IV.
EXTENDS Table1D, PreBin, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Prop  == IOEnv.PROP

SN(c) == Len(c.scen)
G(c, s) == c.scen[s].g
CandOf(c) ==
  CASE c.method = "uniform"  -> UniformSplits(c.vals, c.nb)
    [] c.method = "quantile" -> QuantileSplits(c.vals, c.raw, c.nb)
    [] OTHER -> c.cand
Below(vp, s) == Cardinality({i \in 1..Len(vp) : vp[i] < s})
\* positions are halves of the unit used by the pre-binning arithmetic, which is exact
CutRanks(c) == LET cd == CandOf(c) IN [j \in 1..Len(cd) |-> <<Below(c.vals, cd[j]), j>>]
SplRanks(c) == [j \in 1..Len(c.spl) |-> Below(c.vals, c.spl[j])]
\* ------------------------------------------- refinement common to all scenarios
RECURSIVE SRefine(_, _)
SRefine(c, cs) ==
  IF Len(cs) = 0 THEN cs
  ELSE LET cuts == [i \in 1..Len(cs) |-> cs[i][1]]
           pb == [s \in 1..SN(c) |-> PreBins(G(c, s), cuts)]
           n == Len(cs) + 1
           bad(i) == \E s \in 1..SN(c) : IsPure(pb[s][i])
       IN IF \E i \in 1..n : bad(i)
          THEN SRefine(c, SelectIdx(cs, [i \in 1..(n - 1) |-> bad(i) \/ (i = n - 1 /\ bad(n))], 1))
          ELSE cs
Cs(c) == SRefine(c, CutRanks(c))
FixedPos(c) == {c.fixed[i] : i \in 1..Len(c.fixed)}
MustRefuse(c) == c.hasfixed = 1 /\ FixedPos(c) \cap RefinedAway(CutRanks(c), Cs(c)) # {}
\* ------------------------------------------------------------- the tables
Row(t, i) == <<t[i][2], t[i][3]>>
ExpRows(c, s) == PreBins(G(c, s), SplRanks(c)) \o <<c.scen[s].sp, c.scen[s].miss>>
SumRows(c) == [i \in 1..(Len(c.spl) + 3) |->
   <<Sum([s \in 1..SN(c) |-> ExpRows(c, s)[i][1]]), Sum([s \in 1..SN(c) |-> ExpRows(c, s)[i][2]])>>]
TableF(t, ex, nm) ==
  Cl(Len(t.tab) = Len(ex), nm \o "_rows") \cup
  (IF Len(t.tab) # Len(ex) THEN {} ELSE
     Cl(\A i \in 1..Len(ex) : Row(t.tab, i) = ex[i] /\ t.tab[i][1] = ex[i][1] + ex[i][2], nm \o "_counts") \cup
     Cl(<<t.tot[2], t.tot[3]>> = Tot2(ex) /\ t.tot[1] = Size(Tot2(ex)), nm \o "_totals") \cup
     {nm \o "_" \o x : x \in C07Table(t.tab, t.tot, t.same)} \cup
     (IF Tot2(ex)[1] = 0 \/ Tot2(ex)[2] = 0 THEN {} ELSE
        Cl(Near(t.sums[1], GiniOf(ex), 12) /\ Near(t.sums[2], t.tot[7], 1) /\ Near(t.sums[3], t.tot[8], 1)
           /\ Near(t.sums[4], KSOf(ex), 4), nm \o "_metrics")))
NB(c) == Len(c.spl) + 1
RowOf(c, r) == CASE r[1] = 0 -> 1 + Cardinality({j \in 1..Len(c.spl) : c.spl[j] <= r[2]})
                 [] r[1] = 1 -> NB(c) + 1
                 [] r[1] = 2 -> NB(c) + 2
TransRow(c, t, r, tab) ==
  LET k == RowOf(c, r)
      asked == (r[1] = 1 /\ t.ms = 1) \/ (r[1] = 2 /\ t.mm = 1)
      num == IF r[1] = 1 THEN t.msv ELSE t.mmv
      isint == IF r[1] = 1 THEN t.msi ELSE t.mmi
  IN  Cl(IF asked THEN r[3] = num ELSE Near(r[3], tab[k][6], 1), "transform_woe") \cup
      Cl(IF asked THEN r[4] = num ELSE Near(r[4], tab[k][5], 1), "transform_event_rate") \cup
      Cl(IF asked /\ isint = 1 THEN r[5] * SC = num ELSE r[5] = k - 1, "transform_indices") \cup
      Cl(k \in RangeOf(r[6]), "transform_label")
TransF(c) ==
  LET t == c.probe[1]  tab == c.agg[1].tab IN
  UNION {TransRow(c, t, t.rows[i], tab) : i \in 1..Len(t.rows)} \cup
  Cl(Len(t.ft) = Len(t.rows) /\ \A i \in 1..Len(t.rows) : t.ft[i] = t.rows[i][3], "fit_transform_same")
\* ------------------------------------------------------------- optimisation
SOpts(c, s) ==
  [minb |-> c.o.minb, maxb |-> c.o.maxb,
   mins |-> IF c.o.f_mins < 0 THEN -1 ELSE CeilDiv(c.o.f_mins * c.scen[s].n, 64),
   maxs |-> IF c.o.f_maxs < 0 THEN -1 ELSE CeilDiv(c.o.f_maxs * c.scen[s].n, 64),
   mine |-> -1, maxe |-> -1, minne |-> -1, maxne |-> -1, diff |-> c.o.diff, z0sq |-> c.o.z0sq, polall |-> c.o.polall]
\* the change point of a peak or valley is common to all the scenarios
PeakAt(bins, t) == (\A i \in 1..(t - 1) : RateLe(bins[i], bins[i + 1])) /\ (\A i \in t..(Len(bins) - 1) : RateLe(bins[i + 1], bins[i]))
ValleyAt(bins, t) == (\A i \in 1..(t - 1) : RateLe(bins[i + 1], bins[i])) /\ (\A i \in t..(Len(bins) - 1) : RateLe(bins[i], bins[i + 1]))
OptF(c) ==
  LET cs == Cs(c)  cd == CandOf(c)
      cuts == [i \in 1..Len(cs) |-> cs[i][1]]
      pb == [s \in 1..SN(c) |-> PreBins(G(c, s), cuts)]
      n == Len(cs) + 1
      T == [s \in 1..SN(c) |-> Tot2(pb[s])]
      o == [s \in 1..SN(c) |-> SOpts(c, s)]
      fx == {i \in 1..Len(cs) : cs[i][2] \in FixedPos(c)}
      ch0 == [j \in 1..Len(c.spl) |-> LET m == {i \in 1..Len(cs) : cd[cs[i][2]] = c.spl[j]} IN IF m = {} THEN 0 ELSE SetMin(m)]
      known == \A j \in 1..Len(ch0) : ch0[j] > 0
      ch == Append(ch0, n)
      B(E) == [s \in 1..SN(c) |-> BinsOf(pb[s], E)]
      Val(b) == Sum([s \in 1..SN(c) |-> c.w[s] * DivSum("iv", b[s], T[s])])
      W == Sum(c.w)
      feas(E, b, band) == \A s \in 1..SN(c) : Feasible(o[s], c.o.trend, fx, pb[s], E, b[s], band)
      common(b) == CASE c.o.trend = "peak" -> \E t \in 1..Len(b[1]) : \A s \in 1..SN(c) : PeakAt(b[s], t)
                     [] c.o.trend = "valley" -> \E t \in 1..Len(b[1]) : \A s \in 1..SN(c) : ValleyAt(b[s], t)
                     [] OTHER -> TRUE
      sure == {E \in EndsTab[n] : LET b == B(E) IN feas(E, b, 1) /\ common(b)}
      chb == B(ch)
  IN
  IF n < 2 THEN Cl(c.status = "OPTIMAL" /\ Len(c.spl) = 0, "single_prebin")
  ELSE IF ~known THEN {"unknown_split"}
  ELSE Cl(c.status \in {"OPTIMAL", "INFEASIBLE"}, "status_known") \cup
       (IF c.status = "INFEASIBLE"
        THEN Cl(Len(ch0) = 0, "infeasible_single_bin") \cup Cl(sure = {}, "infeasible_is_true")
        ELSE Cl(\A s \in 1..SN(c) : NumOK(o[s], ch, chb[s]), "number_limits") \cup
             Cl(\A s \in 1..SN(c) : SepOK(o[s], chb[s], -1), "separation_limits") \cup
             Cl(\A s \in 1..SN(c) : TrendOK(c.o.trend, pb[s], ch, chb[s], -1), "trend_in_every_scenario") \cup
             Cl(FixedOK(fx, ch), "fixed_kept") \cup
             Cl(LET mine == Val(chb) IN \A E \in sure : LET v == Val(B(E)) IN mine >= v - 60 * W - v \div 3000, "optimal"))
C12F(c) ==
  Cl(IsStrict(c.spl), "splits_increasing") \cup
  Cl(c.qexc = "", "queries_run") \cup OptF(c) \cup
  (IF c.qexc # "" THEN {} ELSE
   LET tf == UNION {TableF(c.scen[s].t[1], ExpRows(c, s), "scenario") : s \in 1..SN(c)} \cup
             TableF(c.agg[1], SumRows(c), "aggregate")
   IN IF tf # {} THEN tf ELSE TransF(c))
\* a scenario without clean records, and an empty list of splits, may be refused
Failed(c) ==
  IF c.exc # "" THEN
     IF MustRefuse(c) THEN Cl(c.exc = "ValueError", "refusal_is_value_error")
     ELSE Cl(c.exc = "ValueError" /\ ((c.method = "user" /\ Len(c.cand) = 0) \/ \E s \in 1..SN(c) : Size(Tot2(G(c, s))) = 0), "unexpected_error")
  ELSE IF MustRefuse(c) THEN {"fixed_split_silently_dropped"}
  ELSE C12F(c)
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
