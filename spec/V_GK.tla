----------------------------------- MODULE V_GK -----------------------------------
\* Trace validation of quantile summaries: the state of a summary is the multiset
\* of the values it received, and every answer must be within its rank error.
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP
VARIABLES pos, step, bags
Cl(ok, name) == IF ok THEN {} ELSE {name}
Start(k) == IF k > Len(Cases) THEN <<>> ELSE [i \in 1..Cases[k].ns |-> [v \in 1..Cases[k].pool |-> 0]]
Count(vs, v) == Cardinality({i \in 1..Len(vs) : vs[i] = v})
Plus(a, b) == [v \in DOMAIN a |-> a[v] + b[v]]
After(c, o) == CASE o.k = "add" -> [bags EXCEPT ![o.a] = Plus(@, [v \in 1..c.pool |-> Count(o.vs, v)])]
                 [] o.k = "merge" -> [bags EXCEPT ![o.a] = Plus(@, bags[o.b])]
                 [] OTHER -> bags
Below(b, x) == LET F[v \in 0..x] == IF v = 0 THEN 0 ELSE F[v - 1] + b[v] IN F[x]
Dist(b, v, r) == LET lo == Below(b, v - 1) + 1  hi == Below(b, v) IN
  IF r < lo THEN lo - r ELSE IF r > hi THEN r - hi ELSE 0
AnswerOK(c, b, q, v) ==
  LET n == Below(b, c.pool)  r == (q * (n - 1)) \div 64 + 1
      r2 == IF (q * (n - 1)) % 64 = 0 THEN r ELSE r + 1 IN
  v \in 1..c.pool /\ b[v] > 0 /\ (Dist(b, v, r) * c.inv <= n \/ Dist(b, v, r2) * c.inv <= n)
StepFail(c, o, ns) ==
  LET b == ns[o.a]  n == Below(b, c.pool) IN
  (IF o.k = "ask" THEN
     Cl((o.exc = "") <=> n > 0, "answers") \cup
     Cl(n > 0 \/ o.exc \in {"", "ValueError"}, "empty_refused") \cup
     Cl(\A i \in 1..Len(o.bad) : o.bad[i] = "ValueError", "bad_quantile_refused") \cup
     (IF n = 0 \/ o.exc # "" THEN {} ELSE
        Cl(\A i \in 1..Len(o.qs) : o.ans[i] \in 1..c.pool /\ b[o.ans[i]] > 0, "unknown_value") \cup
        Cl(\A i \in 1..Len(o.qs) : AnswerOK(c, b, o.qs[i], o.ans[i]), "rank_error"))
   ELSE Cl(o.exc = "", "operation_fails"))
  \cup Cl(\A i \in 1..c.ns : o.n[i] = Below(ns[i], c.pool), "count")
NewCase == /\ pos' = pos + 1 /\ step' = 0 /\ bags' = Start(pos + 2)
           /\ IF pos + 1 = Len(Cases) THEN PrintT("END") ELSE TRUE
Init == pos = 0 /\ step = 0 /\ bags = Start(1)
Next ==
  /\ pos < Len(Cases)
  /\ LET c == Cases[pos + 1] IN
     IF step = Len(c.ops) THEN NewCase
     ELSE LET o == c.ops[step + 1]  ns == After(c, o)  f == StepFail(c, o, ns) IN
          /\ IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(c.id) \o " " \o ToString(f))
          /\ IF f # {} THEN NewCase ELSE bags' = ns /\ step' = step + 1 /\ pos' = pos
Spec == Init /\ [][Next]_<<pos, step, bags>>
===================================================================================
