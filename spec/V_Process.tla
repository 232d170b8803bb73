-------------------------------- MODULE V_Process --------------------------------
\* Trace validation of BinningProcess histories.
EXTENDS BinProcess, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP
VARIABLES pos, step, st, tied     \* tied: variables whose standing binning is another, equally good solution
Cl(ok, name) == IF ok THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x
Range(s) == {s[i] : i \in 1..Len(s)}
SameOb(a, b) == a.status = b.status /\ a.dtype = b.dtype /\ a.nb = b.nb /\ a.spl = b.spl /\ a.tab = b.tab /\ a.st = b.st
\* a parallel solver may return another optimal solution
TieOb(a, b) == a.status = b.status /\ a.dtype = b.dtype /\ a.spl # b.spl /\ Abs(a.st[1] - b.st[1]) <= 3
Near(a, b) == \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 3
Own(c, v, s, m, ms, mm) ==
  LET tr == c.reg[v][s[v]].tr
      i == CHOOSE i \in 1..Len(tr) : tr[i][1] = m /\ tr[i][2] = ms /\ tr[i][3] = mm
  IN tr[i][4]
Or(a, b) == IF a = "-" THEN b ELSE a
ParM(c, v, o)  == Or(c.tp[v][1], o.m)
ParMs(c, v, o) == Or(c.tp[v][2], o.ms)
ParMm(c, v, o) == Or(c.tp[v][3], o.mm)
RECURSIVE Ordered(_, _)
Ordered(S, n) == IF n = 0 THEN <<>> ELSE Ordered(S, n - 1) \o (IF n \in S THEN <<n>> ELSE <<>>)
Sel(c, o, S) == S \in Selections(c.crit, Range(c.fixed), o.rk)
IsErr(s) == Len(s) > 0 /\ s \in {"ValueError", "TypeError", "NotFittedError", "KeyError", "IndexError", "AttributeError"}
TransFail(c, o, s) ==
  LET S == Range(o.cols)
      P == CHOOSE P \in Selections(c.crit, Range(c.fixed), o.rk) : TRUE
      ms == {ParM(c, v, o) : v \in P}
      mixed == "bins" \in ms \cup {o.m} /\ Cardinality(ms \cup ({o.m} \ {"none"})) > 1
      own == {Own(c, v, s, ParM(c, v, o), ParMs(c, v, o), ParMm(c, v, o)) : v \in P}
  IN IF o.exc # "" THEN
        Cl((o.exc = "ValueError" /\ mixed) \/ (o.exc \in own) \/ (P = {} /\ o.disk = 1), "transform_fails")
     ELSE Cl(~("bins" \in ms /\ Cardinality(ms) > 1), "bins_mixed_with_numbers") \cup
          Cl(Sel(c, o, S) \/ (S = {} /\ P = {}), "transform_selection") \cup
          Cl(o.cols = Ordered(S, c.nv), "transform_order") \cup
          (IF S = {} THEN {} ELSE
            Cl(o.shape[1] = 14 /\ o.shape[2] = Len(o.cols), "transform_shape") \cup
            Cl(\A i \in 1..Len(o.cols) : o.cols[i] = 0 \/ o.cols[i] \in tied \/
               o.mat[i] = Own(c, o.cols[i], s, ParM(c, o.cols[i], o), ParMs(c, o.cols[i], o), ParMm(c, o.cols[i], o)),
               "transform_values"))
After(o) == CASE o.k = "fit" -> DoFit(st, o.map) [] o.k = "update" -> DoUpdate(st, o.a, o.b) [] OTHER -> st
StepFail(c, o, ns) ==
  IF o.k = "fit" THEN
     IF o.exc # "" THEN {"fit_fails"}
     ELSE UNION {LET a == o.cur[v]  b == c.reg[v][ns[v]] IN
                 Cl(SameOb(a, b) \/ TieOb(a, b), "not_as_alone") : v \in 1..c.nv}
  ELSE IF ~Fitted(st) THEN Cl(o.exc = "NotFittedError", "not_fitted_refused")
  ELSE CASE o.k = "update" -> Cl(o.exc = "", "update_fails")
    [] o.k = "support" -> IF o.exc # "" THEN {"support_fails"} ELSE
         LET S == {v \in 1..c.nv : o.sup[v] = 1} IN
         Cl(Sel(c, o, S), "selection") \cup
         Cl(o.sidx[1] = Ordered(S, c.nv) /\ o.sidx[2] = Ordered(S, c.nv), "support_forms")
    [] o.k = "summary" -> IF o.exc # "" THEN {"summary_fails"} ELSE
         Cl(Len(o.sum) = c.nv /\ \A v \in 1..Len(o.sum) : o.sum[v][1] = v, "summary_rows") \cup
         (IF Len(o.sum) # c.nv THEN {} ELSE
          Cl(Sel(c, o, {v \in 1..c.nv : o.sum[v][4] = 1}), "selection") \cup
          UNION {LET q == o.sum[v]  b == c.reg[v][ns[v]] IN
             IF v \in tied THEN {} ELSE
             Cl(q[2] = b.dtype /\ q[3] = b.status /\ q[5] = b.nb, "summary_values") \cup
             Cl(Near(q[6], b.st), "summary_statistics") : v \in 1..c.nv})
    [] OTHER -> TransFail(c, o, ns)
\* objects handed over are independent fits of the same variable: solutions may be tied as well
NewTied(c, o, ns) == IF o.k = "fit" /\ o.exc = "" THEN {v \in 1..c.nv : ~SameOb(o.cur[v], c.reg[v][ns[v]])}
                     ELSE IF o.k = "update" THEN tied \ {o.a} ELSE tied
Blank(k) == IF k > Len(Cases) THEN <<>> ELSE [v \in 1..Cases[k].nv |-> 0]
NewCase == /\ pos' = pos + 1 /\ step' = 0 /\ st' = Blank(pos + 2) /\ tied' = {}
           /\ IF pos + 1 = Len(Cases) THEN PrintT("END") ELSE TRUE
Init == pos = 0 /\ step = 0 /\ st = Blank(1) /\ tied = {}
Next ==
  /\ pos < Len(Cases)
  /\ LET c == Cases[pos + 1] IN
     IF c.exc # "" \/ step = Len(c.ops) THEN NewCase
     ELSE LET o == c.ops[step + 1]  ns == After(o)  f == StepFail(c, o, ns) IN
          /\ IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(c.id) \o " " \o ToString(f))
          /\ IF f # {} THEN NewCase
             ELSE st' = ns /\ step' = step + 1 /\ pos' = pos /\ tied' = NewTied(c, o, ns)
Spec == Init /\ [][Next]_<<pos, step, st, tied>>
==================================================================================
