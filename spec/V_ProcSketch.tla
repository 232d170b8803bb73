------------------------------- MODULE V_ProcSketch -------------------------------
\* Trace validation of BinningProcessSketch histories: the process is the product of
\* one stand-alone sketch per variable plus the selection rule.
EXTENDS BinProcess, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP
VARIABLES pos, step, st
\* st[p] = [rows, adds, solved, tied, al (stand-alone binnings at the last solve)]
Cl(ok, name) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Ordered(_, _)
Ordered(S, n) == IF n = 0 THEN <<>> ELSE Ordered(S, n - 1) \o (IF n \in S THEN <<n>> ELSE <<>>)
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 3
TieOb(a, b) == a.status = b.status /\ a.dtype = b.dtype /\ a.spl # b.spl /\ Abs(a.st[1] - b.st[1]) <= 3
Or(a, b) == IF a = "-" THEN b ELSE a
ParM(c, v, o)  == Or(c.tp[v][1], o.m)
Own(c, v, o) == LET tr == o.own[v]
  i == CHOOSE i \in 1..Len(tr) : tr[i][1] = ParM(c, v, o) /\ tr[i][2] = Or(c.tp[v][2], o.ms) /\ tr[i][3] = Or(c.tp[v][3], o.mm)
  IN tr[i][4]
Sel(c, o, S) == S \in Selections(c.crit, {}, o.rk)
TransFail(c, o, s) ==
  LET S == Range(o.cols)
      P == CHOOSE P \in Selections(c.crit, {}, o.rk) : TRUE
      ms == {ParM(c, v, o) : v \in P}
  IN IF o.exc # "" THEN Cl(o.exc = "ValueError" /\ "bins" \in ms \cup {o.m} /\ Cardinality(ms \cup {o.m}) > 1, "transform_fails")
     ELSE Cl(~("bins" \in ms /\ Cardinality(ms) > 1), "bins_mixed_with_numbers") \cup
          Cl(Sel(c, o, S), "transform_selection") \cup
          Cl(o.cols = Ordered(S, c.nv), "transform_order") \cup
          (IF S = {} THEN {} ELSE
            Cl(o.shape = <<12, Len(o.cols)>>, "transform_shape") \cup
            Cl(\A i \in 1..Len(o.cols) : o.cols[i] = 0 \/ o.cols[i] \in s.tied \/ o.mat[i] = Own(c, o.cols[i], o), "transform_values"))
Add(o)   == [st EXCEPT ![o.a].rows = @ + o.n, ![o.a].adds = @ + 1]
Merge(o) == [st EXCEPT ![o.a].rows = @ + st[o.b].rows, ![o.a].adds = @ + st[o.b].adds]
Solve(c, o) == [st EXCEPT ![o.a].solved = 1, ![o.a].al = o.al,
                          ![o.a].tied = {v \in 1..c.nv : o.cur[v] # o.al[v]}]
After(c, o) == CASE o.k = "add" -> Add(o) [] o.k = "merge" -> Merge(o)
                 [] o.k = "solve" /\ o.exc = "" /\ o.aexc = "" -> Solve(c, o) [] OTHER -> st
StepFail(c, o) ==
  LET s == st[o.a] IN
  CASE o.k \in {"add", "merge"} -> Cl(o.exc = o.aexc, "operation_fails")
    [] o.k = "solve" ->
         IF s.adds = 0 THEN Cl(o.exc # "", "solved_without_data")
         ELSE IF o.aexc # "" THEN Cl(o.exc = o.aexc, "solve_unlike_alone")
         ELSE IF o.exc # "" THEN {"solve_fails"}
         ELSE Cl(\A v \in 1..c.nv : o.cur[v] = o.al[v] \/ TieOb(o.cur[v], o.al[v]), "not_as_alone") \cup
              Cl(o.proc = <<s.rows, s.adds>>, "records_counted")
    [] s.solved = 0 -> Cl(o.exc = "NotSolvedError", "not_solved_refused")
    [] o.k = "support" -> IF o.exc # "" THEN {"support_fails"} ELSE
         LET S == {v \in 1..c.nv : o.sup[v] = 1} IN
         Cl(Sel(c, o, S), "selection") \cup Cl(o.sidx = <<Ordered(S, c.nv), Ordered(S, c.nv)>>, "support_forms")
    [] o.k = "summary" -> IF o.exc # "" THEN {"summary_fails"} ELSE
         Cl(Len(o.sum) = c.nv /\ \A v \in 1..Len(o.sum) : o.sum[v][1] = v, "summary_rows") \cup
         (IF Len(o.sum) # c.nv THEN {} ELSE
          Cl(Sel(c, o, {v \in 1..c.nv : o.sum[v][4] = 1}), "selection") \cup
          UNION {LET q == o.sum[v]  b == s.al[v] IN
             IF v \in s.tied THEN {} ELSE
             Cl(q[2] = b.dtype /\ q[3] = b.status /\ q[5] = b.nb, "summary_values") \cup
             Cl(Near(q[6], b.st), "summary_statistics") : v \in 1..c.nv})
    [] OTHER -> TransFail(c, o, s)
Blank(k) == IF k > Len(Cases) THEN <<>> ELSE [p \in 1..Cases[k].ns |-> [rows |-> 0, adds |-> 0, solved |-> 0, tied |-> {}, al |-> <<>>]]
NewCase == /\ pos' = pos + 1 /\ step' = 0 /\ st' = Blank(pos + 2)
           /\ IF pos + 1 = Len(Cases) THEN PrintT("END") ELSE TRUE
Init == pos = 0 /\ step = 0 /\ st = Blank(1)
Next ==
  /\ pos < Len(Cases)
  /\ LET c == Cases[pos + 1] IN
     IF c.exc # "" \/ step = Len(c.ops) THEN NewCase
     ELSE LET o == c.ops[step + 1]  f == StepFail(c, o) IN
          /\ IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(c.id) \o " " \o ToString(f))
          /\ IF f # {} THEN NewCase ELSE st' = After(c, o) /\ step' = step + 1 /\ pos' = pos
Spec == Init /\ [][Next]_<<pos, step, st>>
===================================================================================
