-------------------------------- MODULE V_Pre1D --------------------------------
\* Executions of the numerical binary binning with its own pre-binning.
EXTENDS V_Bin1D, PreBin

RawOf(c) == [i \in 1..Len(c.vals) |-> c.vals[i][4]]
CandOf(c) ==
  CASE c.method = "uniform"  -> UniformSplits(VPos(c), c.nb)
    [] c.method = "quantile" -> QuantileSplits(VPos(c), RawOf(c), c.nb)
    [] OTHER -> c.cand
Full(c) == [c EXCEPT !.cand = CandOf(c)]
C23F(c) ==
  LET vp == VPos(c)  raw == RawOf(c)  cd == CandOf(c)  all == {cd[i] : i \in 1..Len(cd)} IN
  Cl(Admissible(vp, c.spl), "splits_admissible") \cup
  Cl(\A i \in 1..Len(c.spl) : c.spl[i] \in all, "splits_from_method") \cup
  Cl(Len(c.spl) + 1 <= c.nb, "too_many_bins") \cup
  (IF c.method \notin {"cart", "mdlp"} \/ ~Admissible(vp, c.spl) THEN {}
   ELSE LET b == RawBins(vp, raw, c.spl) IN Cl(Len(b) = 1 \/ \A i \in 1..Len(b) : b[i] >= c.leaf, "bin_below_minimum"))
FailedPre(c) ==
  IF Prop = "C23" THEN (IF c.exc # "" THEN {"unexpected_error"} ELSE C23F(c)) ELSE Failed(Full(c))
NextPre == /\ pos < Len(Cases)
           /\ pos' = pos + 1
           /\ LET f == FailedPre(Cases[pos + 1]) IN
              IF f = {} THEN TRUE
              ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
SpecPre == Init /\ [][NextPre]_pos
================================================================================
