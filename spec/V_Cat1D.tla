-------------------------------- MODULE V_Cat1D --------------------------------
\* Judges recorded executions of the categorical binary binning.
\* cats[k] = <<ne, e, raw ne, raw e>> of category k (weighted and unweighted).
EXTENDS V_Bin1D

CatIds(c) == 1..Len(c.cats)
Raw(c, k) == c.cats[k][3] + c.cats[k][4]
Observed(c) == {k \in CatIds(c) : Raw(c, k) > 0}
NClean(c) == Sum([k \in CatIds(c) |-> Raw(c, k)])
Listed(c) == UNION {RangeOf(c.ug[g]) : g \in 1..Len(c.ug)}
\* categories that must be in the others bin
NCut(c) == IF "ncut" \in DOMAIN c THEN c.ncut ELSE NClean(c)
Others(c) ==
  IF c.user = 1 THEN Observed(c) \ Listed(c)
  ELSE IF c.cut < 0 THEN {}
  ELSE {k \in Observed(c) : Raw(c, k) < CeilDiv(c.cut * NCut(c), 64)}
Normal(c) == IF c.user = 1 THEN Listed(c) ELSE Observed(c) \ Others(c)
HasOth(c) == Others(c) # {}
CatCnt(c, S) == <<Sum([k \in CatIds(c) |-> IF k \in S THEN c.cats[k][1] ELSE 0]),
                  Sum([k \in CatIds(c) |-> IF k \in S THEN c.cats[k][2] ELSE 0])>>
RawCnt(c, S) == <<Sum([k \in CatIds(c) |-> IF k \in S THEN c.cats[k][3] ELSE 0]),
                  Sum([k \in CatIds(c) |-> IF k \in S THEN c.cats[k][4] ELSE 0])>>
MustRefuseAll(c) == c.user = 0 /\ c.cut >= 0 /\ Observed(c) \ Others(c) = {}
NG(c) == Len(c.grp) - IF HasOth(c) THEN 1 ELSE 0        \* normal bins
GSet(c, g) == RangeOf(c.grp[g])
\* ------------------------------------------------------- C25 (and C01, C02)
UnitRates(c) == \* the units (categories, or user groups) in each normal bin: raw counts
  IF c.user = 1 THEN {RangeOf(c.ug[g]) : g \in 1..Len(c.ug)} ELSE {{k} : k \in Normal(c)}
C25Struct(c) ==
  Cl(Len(c.grp) >= 1 + (IF HasOth(c) THEN 1 ELSE 0), "group_count") \cup
  (IF Len(c.grp) < 1 + (IF HasOth(c) THEN 1 ELSE 0) THEN {} ELSE
   Cl(\A g \in 1..Len(c.grp) : Cardinality(GSet(c, g)) = Len(c.grp[g]), "category_repeated") \cup
   Cl(\A g, h \in 1..Len(c.grp) : g < h => GSet(c, g) \cap GSet(c, h) = {}, "category_in_two_bins") \cup
   Cl(UNION {GSet(c, g) : g \in 1..NG(c)} = Normal(c), "categories_covered") \cup
   Cl(HasOth(c) => GSet(c, Len(c.grp)) = Others(c), "others_exact") \cup
   Cl(\A u \in UnitRates(c) : \E g \in 1..NG(c) : u \subseteq GSet(c, g), "user_group_split") \cup
   Cl(\A g, h \in 1..NG(c) : g < h =>
        \A u, v \in UnitRates(c) :
           (u \subseteq GSet(c, g) /\ v \subseteq GSet(c, h) /\ RawCnt(c, u) # Zero2 /\ RawCnt(c, v) # Zero2)
             => RateLe(RawCnt(c, u), RawCnt(c, v)), "contiguous_in_event_rate"))
CatRows(c) == [g \in 1..Len(c.grp) |-> CatCnt(c, GSet(c, g) \ {0})]
CatExpRows(c) == CatRows(c) \o SpRows(c) \o <<<<c.miss[1], c.miss[2]>>>>
CatTable(c) ==
  LET ex == CatExpRows(c) IN
  Cl(Len(c.tab) = Len(ex), "row_count") \cup
  (IF Len(c.tab) # Len(ex) THEN {} ELSE
     Cl(\A i \in 1..Len(ex) : Row(c.tab, i) = ex[i], "row_counts") \cup
     Cl(\A i \in 1..Len(ex) : c.tab[i][1] = c.tab[i][2] + c.tab[i][3], "count_is_sum") \cup
     Cl(Tot2([i \in 1..Len(c.tab) |-> Row(c.tab, i)]) = <<c.tot[2], c.tot[3]>>, "totals") \cup
     Cl(c.tot[1] = c.wtot, "total_records"))
CatRowOf(c, r) ==
  CASE r[1] = 0 -> LET S == {g \in 1..Len(c.grp) : r[2] \in GSet(c, g)} IN IF S = {} THEN 0 ELSE SetMin(S)
    [] r[1] = 1 -> Len(c.grp) + IF c.spdict = 1 THEN r[2] ELSE 1
    [] r[1] = 2 -> Len(c.tab)
    [] r[1] = 3 -> 0
CatTransRow(c, t, r) ==
  LET k == CatRowOf(c, r)
      asked == (r[1] = 1 /\ t.ms = 1) \/ (r[1] = 2 /\ t.mm = 1)
      num == IF r[1] = 1 THEN t.msv ELSE t.mmv
      isint == IF r[1] = 1 THEN t.msi ELSE t.mmi
  IN  IF k = 0
      THEN Cl(IF t.cu = 1 THEN r[3] = t.cuw ELSE Near(r[3], 0, 1), "unknown_woe") \cup
           Cl(IF t.cu = 1 THEN r[4] = t.cuw ELSE Near(r[4], Ratio(c.tot[3], c.tot[1]), 2), "unknown_event_rate") \cup
           Cl(r[5] = (IF t.cu = 1 THEN t.cui ELSE -1), "unknown_index") \cup
           Cl(r[7] = 1, "unknown_label")
      ELSE Cl(IF asked THEN r[3] = num ELSE Near(r[3], c.tab[k][6], 1), "transform_woe") \cup
           Cl(IF asked THEN r[4] = num ELSE Near(r[4], c.tab[k][5], 1), "transform_event_rate") \cup
           Cl(IF asked /\ isint = 1 THEN r[5] * SC = num ELSE r[5] = k - 1, "transform_indices") \cup
           Cl(k \in RangeOf(r[6]), "transform_label")
OneClass(c) == c.tot[2] = 0 \/ c.tot[3] = 0
CatTrans(c, unk) ==
  UNION {LET t == c.probe[j] IN
         Cl(t.exc = "", "transform_runs") \cup
         UNION {CatTransRow(c, t, t.rows[i]) : i \in {i \in 1..Len(t.rows) :
                  IF t.rows[i][1] = 3 THEN unk /\ (~OneClass(c) \/ t.cu = 1) ELSE ~unk}} : j \in 1..Len(c.probe)}

\* ---------------------------------------- the equivalent numerical problem
\* user groups in increasing order of raw event rate (never observed ones last)
GR(c, g) == RawCnt(c, RangeOf(c.ug[g]))
Before(c, g, h) == LET a == GR(c, g)  b == GR(c, h) IN
  IF a = Zero2 THEN FALSE ELSE IF b = Zero2 THEN TRUE ELSE a[2] * Size(b) < b[2] * Size(a)
Tied(c) == \E g, h \in 1..Len(c.ug) : g # h /\ ~Before(c, g, h) /\ ~Before(c, h, g)
Rank(c, g) == 1 + Cardinality({h \in 1..Len(c.ug) : Before(c, h, g)})
AtRank(c, k) == CHOOSE g \in 1..Len(c.ug) : Rank(c, g) = k
Derived(c) ==
  LET K == Len(c.ug)
      upto(j) == SetMax({0} \cup {Rank(c, g) : g \in {g \in 1..K : \E b \in 1..j : RangeOf(c.ug[g]) \subseteq GSet(c, b)}})
  IN [exc |-> c.exc, o |-> c.o, status |-> c.status, hasfixed |-> c.hasfixed,
      fixed |-> LET F == {Rank(c, c.fixg[i]) : i \in 1..Len(c.fixg)} \ {K} IN
                SelectSeq([i \in 1..(K - 1) |-> i], LAMBDA i : i \in F),
      vals |-> [k \in 1..K |-> <<2 * k, CatCnt(c, RangeOf(c.ug[AtRank(c, k)]))[1], CatCnt(c, RangeOf(c.ug[AtRank(c, k)]))[2]>>],
      cand |-> [k \in 1..(K - 1) |-> 2 * k + 1],
      spl |-> IF c.exc # "" THEN <<>> ELSE [j \in 1..(NG(c) - 1) |-> 2 * upto(j) + 1],
      tab |-> c.tab, an |-> <<>>]
CatJudge(c) ==
  IF c.user = 1
  THEN IF Tied(c) THEN {} ELSE
       LET d == Derived(c) IN
       IF c.exc # "" THEN (IF MustRefuse(d) THEN {} ELSE {"unexpected_error"})
       ELSE IF MustRefuse(d) THEN {"fixed_split_silently_dropped"} ELSE Judge(d)
  ELSE LET rows == [i \in 1..NG(c) |-> Row(c.tab, i)]
           ends == [i \in 1..NG(c) |-> i]
           o == [c.o EXCEPT !.minb = c.o.minb] @@
                [mins |-> IF c.o.f_mins < 0 THEN -1 ELSE CeilDiv(c.o.f_mins * c.o.ns, 64),
                 maxs |-> IF c.o.f_maxs < 0 THEN -1 ELSE CeilDiv(c.o.f_maxs * c.o.ns, 64)]
       IN CASE Prop = "C04" -> IF c.status # "OPTIMAL" \/ NG(c) = 1 THEN {} ELSE
                 Cl(NumOK(o, ends, rows), "number_limits") \cup Cl(SepOK(o, rows, -1), "separation_limits")
            [] Prop = "C05" -> IF c.status # "OPTIMAL" THEN {} ELSE Cl(ShapeOK(c.o.trend, rows), "trend_shape")
            [] Prop = "C06" -> Cl(NoRefine(c) \/ NG(c) = 1 \/ \A i \in 1..NG(c) : ~IsPure(rows[i]), "no_pure_bins")
            [] Prop = "C03" -> Cl(c.status \in {"OPTIMAL", "INFEASIBLE"}, "status_known") \cup
                 Cl(c.status = "INFEASIBLE" => NG(c) = 1, "infeasible_single_bin")

FailedCat(c) ==
  IF c.exc # "" THEN
     IF MustRefuseAll(c) THEN Cl(c.exc = "ValueError", "refusal_is_value_error")
     ELSE IF c.user = 1 /\ c.hasfixed = 1 /\ (Tied(c) \/ MustRefuse(Derived(c))) THEN Cl(c.exc = "ValueError", "refusal_is_value_error")
     ELSE {"unexpected_error"}
  ELSE IF MustRefuseAll(c) THEN {"empty_binning_accepted"}
  ELSE CASE Prop = "C25" -> LET s == C25Struct(c) IN s \cup (IF s # {} THEN {} ELSE CatTable(c) \cup CatTrans(c, TRUE))
         [] Prop = "C01" -> IF C25Struct(c) # {} THEN {} ELSE CatTable(c)
         [] Prop = "C02" -> IF C25Struct(c) \cup CatTable(c) # {} THEN {} ELSE CatTrans(c, TRUE)
         [] Prop = "C07" -> C07Table(c.tab, c.tot, c.same) \cup
              IF Len(c.an) = 0 THEN {} ELSE C07An(c.tab, c.tot, NG(c), c.an[1])
         [] Prop = "C05" -> IF C25Struct(c) \cup CatTable(c) # {} THEN {} ELSE
              CatJudge(c) \cup (IF Len(c.an) = 0 THEN {} ELSE C05Trend(c.an[1], [i \in 1..NG(c) |-> Row(c.tab, i)]))
         [] Prop \in {"C03", "C04", "C06"} -> IF C25Struct(c) \cup CatTable(c) # {} THEN {} ELSE CatJudge(c)

NextCat == /\ pos < Len(Cases)
           /\ pos' = pos + 1
           /\ LET f == FailedCat(Cases[pos + 1]) IN
              IF f = {} THEN TRUE
              ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
SpecCat == Init /\ [][NextCat]_pos
================================================================================
