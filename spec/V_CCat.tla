--------------------------------- MODULE V_CCat ---------------------------------
\* Executions of the categorical binning with a continuous target.
\* cats[k] = group of category k followed by its unweighted sum.
EXTENDS V_Cont1D

CatIds(c) == 1..Len(c.cats)
G7(c, k) == SubSeq(c.cats[k], 1, 7)
Raw(c, k) == c.cats[k][7]
Observed(c) == {k \in CatIds(c) : Raw(c, k) > 0}
Listed(c) == UNION {RangeOf(c.ug[g]) : g \in 1..Len(c.ug)}
Others(c) ==
  IF c.user = 1 THEN Observed(c) \ Listed(c)
  ELSE IF c.cut < 0 THEN {}
  ELSE {k \in Observed(c) : Raw(c, k) < CeilDiv(c.cut * Sum([j \in CatIds(c) |-> Raw(c, j)]), 64)}
Normal(c) == IF c.user = 1 THEN Listed(c) ELSE Observed(c) \ Others(c)
HasOth(c) == Others(c) # {}
GOf(c, S) == GTot([k \in CatIds(c) |-> IF k \in S THEN G7(c, k) ELSE GZero])
RawOf(c, S) == LET n == Sum([k \in CatIds(c) |-> IF k \in S THEN Raw(c, k) ELSE 0])
                   s == Sum([k \in CatIds(c) |-> IF k \in S THEN c.cats[k][8] ELSE 0]) IN <<n - s, s>>
Empty(b) == Size(b) = 0
MustRefuseAll(c) == c.user = 0 /\ c.cut >= 0 /\ Observed(c) \ Others(c) = {}
NG(c) == Len(c.grp) - IF HasOth(c) THEN 1 ELSE 0
GSet(c, g) == RangeOf(c.grp[g])
Units(c) == IF c.user = 1 THEN {RangeOf(c.ug[g]) : g \in 1..Len(c.ug)} ELSE {{k} : k \in Normal(c)}
Struct(c) ==
  Cl(NG(c) >= 1, "group_count") \cup
  (IF NG(c) < 1 THEN {} ELSE
   Cl(\A g \in 1..Len(c.grp) : Cardinality(GSet(c, g)) = Len(c.grp[g]), "category_repeated") \cup
   Cl(\A g, h \in 1..Len(c.grp) : g < h => GSet(c, g) \cap GSet(c, h) = {}, "category_in_two_bins") \cup
   Cl(UNION {GSet(c, g) : g \in 1..NG(c)} = Normal(c), "categories_covered") \cup
   Cl(HasOth(c) => GSet(c, Len(c.grp)) = Others(c), "others_exact") \cup
   Cl(\A u \in Units(c) : \E g \in 1..NG(c) : u \subseteq GSet(c, g), "user_group_split") \cup
   Cl(\A g, h \in 1..NG(c) : g < h => \A u, v \in Units(c) :
        (u \subseteq GSet(c, g) /\ v \subseteq GSet(c, h) /\ ~Empty(RawOf(c, u)) /\ ~Empty(RawOf(c, v)))
          => RateLe(RawOf(c, u), RawOf(c, v)), "contiguous_in_mean"))
CatRows(c) == [g \in 1..Len(c.grp) |-> GOf(c, GSet(c, g) \ {0})] \o SpG(c) \o <<c.miss>>
CatRowOf(c, r) ==
  CASE r[1] = 0 -> LET S == {g \in 1..Len(c.grp) : r[2] \in GSet(c, g)} IN IF S = {} THEN 0 ELSE SetMin(S)
    [] r[1] = 1 -> Len(c.grp) + IF c.spdict = 1 THEN r[2] ELSE 1
    [] r[1] = 2 -> Len(c.tab)
    [] r[1] = 3 -> 0
\* ---- user groups as an ordered sequence of pre-bins
GR(c, g) == RawOf(c, RangeOf(c.ug[g]))
Bef(c, g, h) == LET a == GR(c, g)  b == GR(c, h) IN
  IF Empty(a) THEN FALSE ELSE IF Empty(b) THEN TRUE ELSE a[2] * Size(b) < b[2] * Size(a)
Tied(c) == \E g, h \in 1..Len(c.ug) : g # h /\ ~Bef(c, g, h) /\ ~Bef(c, h, g)
Rank(c, g) == 1 + Cardinality({h \in 1..Len(c.ug) : Bef(c, h, g)})
AtRank(c, k) == CHOOSE g \in 1..Len(c.ug) : Rank(c, g) = k
Derived(c) ==
  LET K == Len(c.ug)
      upto(j) == SetMax({0} \cup {Rank(c, g) : g \in {g \in 1..K : \E b \in 1..j : RangeOf(c.ug[g]) \subseteq GSet(c, b)}})
  IN [method |-> "user", o |-> c.o, status |-> c.status, hasfixed |-> c.hasfixed,
      fixed |-> LET F == {Rank(c, c.fixg[i]) : i \in 1..Len(c.fixg)} \ {K} IN
                SelectSeq([i \in 1..(K - 1) |-> i], LAMBDA i : i \in F),
      vals |-> [k \in 1..K |-> <<2 * k>> \o GOf(c, RangeOf(c.ug[AtRank(c, k)]))],
      cand |-> [k \in 1..(K - 1) |-> 2 * k + 1],
      spl |-> IF c.exc # "" THEN <<>> ELSE [j \in 1..(NG(c) - 1) |-> 2 * upto(j) + 1]]
Judge(c) ==
  IF c.user = 1 THEN
    IF Tied(c) THEN {} ELSE IF MustRefuse(Derived(c)) THEN {"fixed_split_silently_dropped"} ELSE C09F(Derived(c))
  ELSE LET g == [i \in 1..NG(c) |-> GOf(c, GSet(c, i))]  b == AsBins(g)  o == COpts(c.o) IN
       Cl(c.status \in {"OPTIMAL", "INFEASIBLE"}, "status_known") \cup
       Cl(c.status = "INFEASIBLE" => NG(c) = 1, "infeasible_single_bin") \cup
       (IF c.status # "OPTIMAL" \/ NG(c) = 1 THEN {}
        ELSE Cl(NumOK(o, <<>>, b), "number_limits") \cup Cl(CSepOK(o, g, b, -1), "separation_limits") \cup
             Cl(ShapeOK(c.o.trend, b), "trend_shape"))
FailedC(c) ==
  IF c.exc # "" THEN
     IF MustRefuseAll(c) \/ (c.user = 1 /\ c.hasfixed = 1 /\ (Tied(c) \/ MustRefuse(Derived(c))))
     THEN Cl(c.exc = "ValueError", "refusal_is_value_error") ELSE {"unexpected_error"}
  ELSE IF MustRefuseAll(c) THEN {"empty_binning_accepted"}
  ELSE LET s == Struct(c)
           t == IF s # {} THEN {} ELSE TableOk(c, CatRows(c))
           unk == LET U(t0) == {"unknown_mean", "unknown_index", "unknown_label"} IN U(0)
       IN CASE Prop = "C25" -> s \cup IF s # {} \/ t # {} THEN t ELSE TransOk(c, LAMBDA r : CatRowOf(c, r)) \cap unk
            [] Prop = "C08" -> IF s # {} THEN {} ELSE t \cup IF t # {} THEN {} ELSE
                 AnOk(c, CatRows(c), NG(c)) \cup TransOk(c, LAMBDA r : CatRowOf(c, r))
            [] Prop = "C09" -> IF s # {} \/ t # {} THEN {} ELSE Judge(c)
NextC == /\ pos < Len(Cases)
         /\ pos' = pos + 1
         /\ LET f == FailedC(Cases[pos + 1]) IN
            IF f = {} THEN TRUE
            ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
SpecC == Init /\ [][NextC]_pos
================================================================================
