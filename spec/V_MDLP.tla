--------------------------------- MODULE V_MDLP ---------------------------------
\* Executions of the MDLP discretiser on its own.
EXTENDS PreBin, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Prop  == IOEnv.PROP
Gr(c) == [i \in 1..Len(c.vals) |-> <<c.vals[i][2], c.vals[i][3]>>]
Failed(c) ==
  IF c.exc # "" THEN {"unexpected_error"} ELSE
  LET n == Len(c.vals)
      gap(s) == {k \in 1..(n - 1) : IF c.exact = 1 THEN 2 * s = c.vals[k][1] + c.vals[k + 1][1]
                                    ELSE s >= c.vals[k][1] /\ s < c.vals[k + 1][1]}
      S == UNION {gap(c.spl[i]) : i \in 1..Len(c.spl)}
  IN Cl(IF c.exact = 1 THEN IsStrict(c.spl) ELSE IsSorted(c.spl), "splits_increasing") \cup
     Cl(\A i \in 1..Len(c.spl) : gap(c.spl[i]) # {}, "split_between_values") \cup
     Cl(c.spl = c.spl2, "depends_on_record_order") \cup Cl(c.same = 1, "input_modified") \cup
     Cl(MValid(Gr(c), S, 1, n, c.leaf, c.minsplit, c.exact = 1), "not_an_mdlp_partition")
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
