-------------------------------- MODULE V_Metrics -------------------------------
\* Performance metrics and curves as functions of the multiset of (target, score) pairs.
EXTENDS MetricDefs, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
\* ------------------------------------------------------------------ curves
Between(a, m, b) ==
  /\ (m[1] - a[1]) * (b[2] - a[2]) = (b[1] - a[1]) * (m[2] - a[2])
  /\ m[1] >= Min2(a[1], b[1]) /\ m[1] <= Max2(a[1], b[1]) /\ m[2] >= Min2(a[2], b[2]) /\ m[2] <= Max2(a[2], b[2])
OnLine(q, m) == (\E i \in 1..Len(q) : q[i] = m) \/ \E i \in 1..(Len(q) - 1) : Between(q[i], m, q[i + 1])
Monot(q) == \A i \in 1..(Len(q) - 1) : q[i][1] <= q[i + 1][1] /\ q[i][2] <= q[i + 1][2]
SortedVals(c) == LET n == Cardinality(Vals(c)) IN [k \in 1..n |-> CHOOSE v \in Vals(c) : Cardinality({w \in Vals(c) : w > v}) = k - 1]
\* vertices of the curves, from the highest score downwards
RocV(c) == LET q == SortedVals(c) IN <<<<0, 0>>>> \o [k \in 1..Len(q) |-> <<NN(c) - NeLe(c, q[k] - 1), NP(c) - EvLe(c, q[k] - 1)>>]
CapV(c) == LET q == RocV(c) IN [k \in 1..Len(q) |-> <<q[k][1] + q[k][2], q[k][2]>>]
SameCurve(q, e) == Len(q) > 0 /\ Monot(q) /\ (\A k \in 1..Len(q) : OnLine(e, q[k])) /\ (\A k \in 1..Len(e) : OnLine(q, e[k]))
StepOk(q, h(_, _), c) ==
  /\ Len(q) > 0
  /\ \A k \in 1..(Len(q) - 1) : q[k][1] <= q[k + 1][1] /\ q[k][2] <= q[k + 1][2]
  /\ \A v \in Vals(c) : \E k \in 1..Len(q) : q[k] = <<v, h(c, v)>>
  /\ \A k \in 1..Len(q) : q[k][2] >= 0 /\ (q[k][1] \in Vals(c) => q[k][2] <= h(c, q[k][1]))
PlotOk(c, o) ==
  Cl(SameCurve(c.roc, RocV(c)), "roc_curve") \cup
  Cl(SameCurve(c.cap, CapV(c)), "cap_curve") \cup
  Cl(SameCurve(c.perf, <<<<0, 0>>, <<NP(c), NP(c)>>, <<Len(c.y), NP(c)>>>>), "cap_perfect_curve") \cup
  Cl(StepOk(c.kse, EvLe, c), "ks_event_curve") \cup Cl(StepOk(c.ksn, NeLe, c), "ks_nonevent_curve") \cup
  Cl(o[1] = -1 \/ Near(o[1], (GiniOf(c) + SC) \div 2, 8), "auc_label") \cup
  Cl(o[2] = -1 \/ Near(o[2], GiniOf(c), 8), "gini_label") \cup
  Cl(o[3] = -1 \/ KsOk(c, o[3], {v \in Vals(c) : Near(o[4], Ratio(v, c.L), 5003)}, 60), "ks_label") \cup
  Cl(Len(c.vl) # 2 \/ LET v == c.vl[1][1] IN
       /\ c.vl[2][1] = v /\ v \in Vals(c) /\ Abs(Diff(c, v)) \in {Ks1(c), Ks2(c)}
       /\ \/ Near(c.vl[1][2], Ratio(EvLe(c, v), NP(c)), 3) /\ Near(c.vl[2][2], Ratio(NeLe(c, v), NN(c)), 3)
          \/ Near(c.vl[2][2], Ratio(EvLe(c, v), NP(c)), 3) /\ Near(c.vl[1][2], Ratio(NeLe(c, v), NN(c)), 3), "ks_mark") \cup
  Cl(c.saved = 1, "figure_not_saved")

NearO(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], 3)
Failed(c) ==
  IF c.exc # "" THEN {"unexpected_error_" \o c.exc} ELSE
  Cl(NearO(c.out, c.out2), "depends_on_record_order") \cup
  (CASE c.kind = "rank" -> RankOk(c, c.out) [] c.kind = "conf" -> ConfOk(c, c.out)
     [] c.kind = "reg" -> RegOk(c, c.out) [] c.kind = "plot" -> PlotOk(c, c.out))
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
