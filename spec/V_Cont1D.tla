-------------------------------- MODULE V_Cont1D --------------------------------
\* Executions of the numerical binning with a continuous target.
\* vals[i] = <<position, n, s, ss, min, max, zeros, raw>>
EXTENDS Cont1D, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Prop  == IOEnv.PROP

Grp(c)  == [i \in 1..Len(c.vals) |-> SubSeq(c.vals[i], 2, 8)]
VPos(c) == [i \in 1..Len(c.vals) |-> c.vals[i][1]]
CandOf(c) ==
  CASE c.method = "uniform"  -> UniformSplits(VPos(c), c.nb)
    [] c.method = "quantile" -> QuantileSplits(VPos(c), [i \in 1..Len(c.vals) |-> c.vals[i][8]], c.nb)
    [] OTHER -> c.cand
Below(vp, s) == Cardinality({i \in 1..Len(vp) : vp[i] < s})
CutRanks(c) == LET vp == VPos(c)  cd == CandOf(c) IN [j \in 1..Len(cd) |-> <<Below(vp, cd[j]), j>>]
SplRanks(c) == LET vp == VPos(c) IN [j \in 1..Len(c.spl) |-> Below(vp, c.spl[j])]
Cs(c) == Refine(AsBins(Grp(c)), CutRanks(c), TRUE)
FixedPos(c) == {c.fixed[i] : i \in 1..Len(c.fixed)}
MustRefuse(c) == c.hasfixed = 1 /\ FixedPos(c) \cap RefinedAway(CutRanks(c), Cs(c)) # {}
ExpRows(c) == GPre(Grp(c), SplRanks(c)) \o SpG(c) \o <<c.miss>>
NB(c) == Len(c.spl) + 1
RowOf(c, r) == CASE r[1] = 0 -> 1 + Cardinality({j \in 1..Len(c.spl) : c.spl[j] <= r[2]})
                 [] r[1] = 1 -> NB(c) + IF c.spdict = 1 THEN r[2] ELSE 1
                 [] r[1] = 2 -> Len(c.tab)
C08F(c) ==
  LET ex == ExpRows(c)
      t == Cl(IsStrict(c.spl), "splits_increasing") \cup TableOk(c, ex)
  IN IF "row_count" \in t \/ "splits_increasing" \in t THEN t
     ELSE t \cup AnOk(c, ex, NB(c)) \cup TransOk(c, LAMBDA r : RowOf(c, r))
C09F(c) ==
  LET cs == Cs(c)  cd == CandOf(c)
      pg == GPre(Grp(c), [i \in 1..Len(cs) |-> cs[i][1]])
      fx == {i \in 1..Len(cs) : cs[i][2] \in FixedPos(c)}
      ch0 == [j \in 1..Len(c.spl) |->
                LET m == {i \in 1..Len(cs) : cd[cs[i][2]] = c.spl[j]} IN IF m = {} THEN 0 ELSE SetMin(m)]
  IN Cl(IsStrict(c.spl), "splits_strictly_increasing") \cup
     IF Len(pg) < 2 THEN Cl(c.status = "OPTIMAL" /\ Len(c.spl) = 0, "single_prebin")
     ELSE COutcome(c, pg, fx, ch0)
Failed(c) ==
  IF c.exc # "" THEN
     IF MustRefuse(c) THEN Cl(c.exc = "ValueError", "refusal_is_value_error") ELSE {"unexpected_error"}
  ELSE IF MustRefuse(c) THEN {"fixed_split_silently_dropped"}
  ELSE IF Prop = "C09" THEN C09F(c) ELSE C08F(c)
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
