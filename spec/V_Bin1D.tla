-------------------------------- MODULE V_Bin1D --------------------------------
\* Judges recorded executions of the numerical binary binning: every record of
\* Cases is one execution (fit, table, analysis, transforms).  Failed(c) is the
\* set of clauses of property Prop that the execution breaks.
EXTENDS Table1D, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Prop  == IOEnv.PROP

\* ------------------------------------------------ the specified pipeline
G(c)    == [i \in 1..Len(c.vals) |-> <<c.vals[i][2], c.vals[i][3]>>]
VPos(c) == [i \in 1..Len(c.vals) |-> c.vals[i][1]]
\* number of clean distinct values strictly below a split position
Below(vp, s) == Cardinality({i \in 1..Len(vp) : vp[i] < s})
CutRanks(c) == LET vp == VPos(c) IN [j \in 1..Len(c.cand) |-> <<Below(vp, c.cand[j]), j>>]
SplRanks(c) == LET vp == VPos(c) IN [j \in 1..Len(c.spl) |-> Below(vp, c.spl[j])]
NoRefine(c) == c.o.div \in {"hellinger", "triangular"}
\* the divergences defined for pure bins keep them, unless only one class was seen
Soft(c)     == NoRefine(c) /\ Tot2(G(c))[1] > 0 /\ Tot2(G(c))[2] > 0
Cs(c)       == Refine(G(c), CutRanks(c), Soft(c))
FixedPos(c) == {c.fixed[i] : i \in 1..Len(c.fixed)}
MustRefuse(c) == c.hasfixed = 1 /\ FixedPos(c) \cap RefinedAway(CutRanks(c), Cs(c)) # {}
SpRows(c) == IF Len(c.sp) = 0 THEN <<Zero2>>
             ELSE IF c.spdict = 1
                  THEN [i \in 1..Len(c.sp) |-> Tot2(c.sp[i])]
                  ELSE <<Tot2([i \in 1..Len(c.sp) |-> Tot2(c.sp[i])])>>
EffOpts(c, pb) ==
  LET o == c.o
      force == Soft(c) /\ \E i \in 1..Len(pb) : IsPure(pb[i]) IN
  [minb |-> o.minb, maxb |-> o.maxb,
   mins |-> IF o.f_mins < 0 THEN -1 ELSE CeilDiv(o.f_mins * o.ns, 64),
   maxs |-> IF o.f_maxs < 0 THEN -1 ELSE CeilDiv(o.f_maxs * o.ns, 64),
   mine |-> IF force THEN Max2(o.mine, 1) ELSE o.mine,
   minne |-> IF force THEN Max2(o.minne, 1) ELSE o.minne,
   maxe |-> o.maxe, maxne |-> o.maxne, diff |-> o.diff, z0sq |-> o.z0sq, polall |-> o.polall]

\* ------------------------------------------------------------- C01
Row(t, i) == <<t[i][2], t[i][3]>>
ExpRows(c) ==   \* the rows the table must have for the returned splits
  PreBins(G(c), SplRanks(c)) \o SpRows(c) \o <<<<c.miss[1], c.miss[2]>>>>
C01F(c) ==
  LET ex == ExpRows(c) IN
  Cl(IsStrict(c.spl), "splits_increasing") \cup
  Cl(Len(c.tab) = Len(ex), "row_count") \cup
  (IF Len(c.tab) # Len(ex) THEN {} ELSE
     Cl(\A i \in 1..Len(ex) : Row(c.tab, i) = ex[i], "row_counts") \cup
     Cl(\A i \in 1..Len(ex) : c.tab[i][1] = c.tab[i][2] + c.tab[i][3], "count_is_sum") \cup
     Cl(Tot2([i \in 1..Len(c.tab) |-> Row(c.tab, i)]) = <<c.tot[2], c.tot[3]>>, "totals") \cup
     Cl(c.tot[1] = c.wtot, "total_records"))

\* ------------------------------------------------------------- C02
BinIdx(c, pos) == 1 + Cardinality({j \in 1..Len(c.spl) : c.spl[j] <= pos})
NB(c) == Len(c.spl) + 1
RowOf(c, r) == CASE r[1] = 0 -> BinIdx(c, r[2])
                 [] r[1] = 1 -> NB(c) + IF c.spdict = 1 THEN r[2] ELSE 1
                 [] r[1] = 2 -> Len(c.tab)
C02Row(c, t, r) ==
  LET k == RowOf(c, r)
      asked == (r[1] = 1 /\ t.ms = 1) \/ (r[1] = 2 /\ t.mm = 1)
      num == IF r[1] = 1 THEN t.msv ELSE t.mmv
      isint == IF r[1] = 1 THEN t.msi ELSE t.mmi
  IN  Cl(IF asked THEN r[3] = num ELSE Near(r[3], c.tab[k][6], 1), "transform_woe") \cup
      Cl(IF asked THEN r[4] = num ELSE Near(r[4], c.tab[k][5], 1), "transform_event_rate") \cup
      Cl(IF asked /\ isint = 1 THEN r[5] * SC = num ELSE r[5] = k - 1, "transform_indices") \cup
      Cl(k \in RangeOf(r[6]), "transform_label")
C02F(c) ==
  UNION {
    LET t == c.probe[j] IN
    Cl(t.exc = "", "transform_runs") \cup
    UNION {C02Row(c, t, t.rows[i]) : i \in 1..Len(t.rows)} : j \in 1..Len(c.probe)} \cup
  Cl(\A i \in 1..Len(c.alone) : \A t \in {c.probe[1]} :
        t.exc # "" \/ c.alone[i] = t.rows[i][3], "transform_alone")

\* ------------------------------------------------------------- C03..C06
\* ends of the returned merging over the refined pre-bins; 0 if a split is no candidate
ChosenEnds(c, cs) ==
  [j \in 1..Len(c.spl) |->
     LET m == {i \in 1..Len(cs) : c.cand[cs[i][2]] = c.spl[j]} IN
     IF m = {} THEN 0 ELSE SetMin(m)]
AllBins(pb) == [E \in EndsTab[Len(pb)] |-> BinsOf(pb, E)]

JudgeP(c, P) ==
  LET cs == Cs(c)
      pb == PreBins(G(c), [i \in 1..Len(cs) |-> cs[i][1]])
      n  == Len(pb)
      T  == Tot2(pb)
      o  == EffOpts(c, pb)
      fx == {i \in 1..Len(cs) : cs[i][2] \in FixedPos(c)}
      ch0 == ChosenEnds(c, cs)
      known == \A j \in 1..Len(ch0) : ch0[j] > 0
      ch == Append(ch0, n)
      chb == BinsOf(pb, ch)
      cand == EndsTab[n]
      tol == 60 + IF c.o.mip = 1 THEN 60 ELSE 0
      tolg == IF c.o.gamma > 0 THEN Size(T) * 2 + 40 ELSE 0
      Ob(b) == Obj(c.o.div, b, T, c.o.gamma)
      Opt(tr) ==   \* is the outcome right for trend tr ?
        LET B == [E \in cand |-> BinsOf(pb, E)]
            local == fx # {} /\ OnlyTrend(o, c.o.gamma)
            sure == {E \in cand : Feasible(o, tr, fx, pb, E, B[E], 1) /\ (local => LocalOK(tr, pb, E))}
        IN IF c.status = "INFEASIBLE" THEN sure = {}
           ELSE IF c.status = "OPTIMAL"
           THEN /\ Feasible(o, tr, fx, pb, ch, chb, -1)
                /\ LET mine == Ob(chb) IN
                   \A E \in sure : LET v == Ob(B[E]) IN
                      mine >= v - tol - tolg - (IF c.o.mip = 1 THEN MulM(Abs(v), 200) ELSE 0)
           ELSE FALSE
      has == n >= 2
  IN
  CASE P = "C03" ->
        IF ~has THEN Cl(c.status = "OPTIMAL", "single_prebin_status")
        ELSE IF ~known THEN {"unknown_split"}
        ELSE Cl(c.status \in {"OPTIMAL", "INFEASIBLE"}, "status_known") \cup
             Cl(c.status = "INFEASIBLE" => Len(c.spl) = 0, "infeasible_single_bin") \cup
             Cl(\E tr \in TrendFamily(c.o.trend) : Opt(tr), "optimal_or_infeasible")
    [] P = "C04" ->
        IF ~has \/ c.status \notin {"OPTIMAL", "FEASIBLE"} THEN {}
        ELSE IF ~known THEN {"unknown_split"}
        ELSE Cl(NumOK(o, ch, chb), "number_limits") \cup Cl(SepOK(o, chb, -1), "separation_limits")
    [] P = "C05" ->
        (IF ~has \/ c.status \notin {"OPTIMAL", "FEASIBLE"} THEN {}
         ELSE LET rows == [i \in 1..NB(c) |-> Row(c.tab, i)] IN
              IF Len(c.tab) < NB(c) THEN {"row_count"}
              ELSE Cl(ShapeOK(c.o.trend, rows), "trend_shape"))
        \cup (IF Len(c.an) = 0 \/ Len(c.tab) < NB(c) THEN {}
              ELSE C05Trend(c.an[1], [i \in 1..NB(c) |-> Row(c.tab, i)]))
    [] P = "C06" ->
        Cl(IsStrict(c.spl), "splits_strictly_increasing") \cup
        Cl(known, "splits_are_candidates") \cup
        Cl(FixedPos(c) \cap {cs[i][2] : i \in 1..Len(cs)} = {} \/ c.status = "INFEASIBLE" \/ ~has
             \/ (known /\ fx \subseteq RangeOf(ch0)), "fixed_kept") \cup
        Cl(Soft(c) \/ Len(c.tab) < NB(c) \/ NB(c) = 1 \/
             \A i \in 1..NB(c) : ~IsPure(Row(c.tab, i)), "no_pure_bins")

Judge(c) == JudgeP(c, Prop)
C07F(c) == C07Table(c.tab, c.tot, c.same) \cup
           IF Len(c.an) = 0 THEN {} ELSE C07An(c.tab, c.tot, NB(c), c.an[1])

Failed(c) ==
  IF c.exc # "" THEN
     IF Prop = "C06" THEN Cl(MustRefuse(c) /\ c.exc = "ValueError", "unexpected_error")
     ELSE IF MustRefuse(c) THEN {} ELSE {"unexpected_error"}
  ELSE IF MustRefuse(c) THEN (IF Prop = "C06" THEN {"fixed_split_silently_dropped"} ELSE {})
  ELSE CASE Prop = "C01" -> C01F(c)
         [] Prop = "C02" -> IF C01F(c) # {} THEN {} ELSE C02F(c)
         [] Prop \in {"C03", "C04", "C05", "C06"} -> Judge(c)
         [] Prop = "C07" -> C07F(c)

VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
