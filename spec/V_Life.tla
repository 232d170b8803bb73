--------------------------------- MODULE V_Life ---------------------------------
\* Recorded life cycles of two objects of one class, judged step by step.
EXTENDS Lifecycle, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NQ(c) == Len(c.qn)
HasRef(c, k) == \E i \in 1..Len(c.refs) : c.refs[i].key = k
RefOf(c, k) == c.refs[CHOOSE i \in 1..Len(c.refs) : c.refs[i].key = k]
Refused(c, q) == \A j \in 1..NQ(c) : q[j] = -1
\* other splits (first query) with the same objective (last query) are another optimal solution
EquallyGood(c, q, r) == c.tie = 1 /\ q[1] # r[1] /\ q[NQ(c)] = r[NQ(c)] /\ q[NQ(c)] > 0 /\ \A j \in 1..NQ(c) : q[j] > 0 \/ r[j] < 0
\* answers of history k (js: the object was read from a table file, which keeps only some queries)
Agrees(c, q, k, js) == IF k = NoFit THEN Refused(c, q)
                       ELSE HasRef(c, k) /\ RefOf(c, k).exc = "" /\
                            \/ \A j \in 1..NQ(c) : (js = 1 /\ c.keep[j] = 0) \/ q[j] = RefOf(c, k).q[j]
                            \/ EquallyGood(c, q, RefOf(c, k).q)
Wrong(c, q, k, js) == IF k = NoFit THEN {"answers_without_fit_" \o c.qn[j] : j \in {x \in 1..NQ(c) : q[x] # -1}}
                      ELSE IF ~HasRef(c, k) THEN {"no_reference"}
                      ELSE {"differs_" \o c.qn[j] : j \in {x \in 1..NQ(c) : ~((js = 1 /\ c.keep[x] = 0) \/ q[x] = RefOf(c, k).q[x])}}
Judge(c, q, K, js) == IF K = Unknown \/ \E k \in K : Agrees(c, q, k, js) THEN {}
                      ELSE IF Cardinality(K) > 1 THEN {"mixed_answers_after_failed_fit"} \cup Wrong(c, q, CHOOSE k \in K : k # NoFit, js)
                      ELSE Wrong(c, q, CHOOSE k \in K : TRUE, js)
Narrow(c, q, K, js) == IF K = Unknown THEN K ELSE LET A == {k \in K : Agrees(c, q, k, js)} IN IF A = {} THEN K ELSE A
\* a successful answer of the fresh reference object must not itself be a refusal
RefOk(c) == UNION {IF c.refs[i].exc # "" THEN {} ELSE {"refused_after_fit_" \o c.qn[j] : j \in {x \in 1..NQ(c) : c.refs[i].q[x] = -1}} \cup
                   {"query_fails_after_fit_" \o c.qn[j] : j \in {x \in 1..NQ(c) : c.refs[i].q[x] < -1}} : i \in 1..Len(c.refs)}
OpOk(c, o, K) ==
  LET failed == o.exc # ""
      w == IF o.op = "B" THEN 2 ELSE 1
      nk == FitKey(K, w, c.acc)
  IN IF o.op \in {"A", "B", "P", "F"} THEN
        Cl(~failed \/ K = Unknown \/ \E k \in nk : HasRef(c, k) /\ RefOf(c, k).exc # "", "fit_fails_unlike_fresh_object") \cup
        Cl(failed \/ o.proto = <<>>, "table_answers_before_build_or_analysis") \cup
        Cl(o.ft # 2, "fit_transform_differs_from_fit_and_transform") \cup
        Cl(o.same = 1, "input_modified")
     ELSE IF o.op = "X" THEN Cl(o.same = 1, "input_modified")
     ELSE IF o.op = "J" THEN Cl(IF K = {NoFit} THEN o.nf = 1 ELSE ~failed \/ NoFit \in K \/ K = Unknown, "to_json_or_read_json")
     ELSE IF o.op = "C" THEN Cl(~failed, "clone_fails")
     ELSE Cl(~failed \/ NoFit \in K \/ K = Unknown, "serialisation_fails")
\* fold over the steps: state [K1, K2, j1, j2, f]
RECURSIVE Run(_, _, _)
Run(c, k, s) ==
  IF k > Len(c.ops) THEN s.f
  ELSE LET o == c.ops[k]
           K2 == [s.K EXCEPT ![o.i] = Step(s.K[o.i], o.op, o.exc # "", c.acc)]
           j2 == [s.j EXCEPT ![o.i] = IF o.exc # "" THEN s.j[o.i] ELSE IF o.op = "J" THEN 1 ELSE IF o.op \in {"S", "D"} THEN s.j[o.i] ELSE 0]
           f2 == OpOk(c, o, s.K[o.i]) \cup UNION {Judge(c, o.q[i], K2[i], j2[i]) : i \in 1..2} \cup
                 UNION {Cl(K2[i] = Unknown \/ o.r[i] = o.q[i], "repeated_query_differs") : i \in 1..2}
           K3 == [i \in 1..2 |-> Narrow(c, o.q[i], K2[i], j2[i])]
       IN Run(c, k + 1, [K |-> K3, j |-> j2, f |-> s.f \cup f2])
Failed(c) ==
  RefOk(c) \cup UNION {IF Refused(c, c.first[i]) THEN {} ELSE Wrong(c, c.first[i], NoFit, 0) : i \in 1..2} \cup
  Run(c, 1, [K |-> [i \in 1..2 |-> {NoFit}], j |-> [i \in 1..2 |-> 0], f |-> {}])
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
