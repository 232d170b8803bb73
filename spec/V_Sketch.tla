-------------------------------- MODULE V_Sketch --------------------------------
\* Trace validation of OptimalBinningSketch: every recorded operation must be a
\* step of StreamSketch and every observation a function of the state reached.
EXTENDS V_Cat1D, StreamSketch

NClTok(c) == Cardinality({t \in 1..Len(c.toks) : c.toks[t] = 0})
KindTot(c, bag, k) == VSum([t \in 1..Len(bag) |-> IF c.toks[t] = k THEN bag[t] ELSE Zero2])
CleanTot(c, bag) == KindTot(c, bag, 0)
Exact(c, bag) == Size(CleanTot(c, bag)) - 1 < c.inv_eps
\* value position at a rank (clean values are tokens 1..K, at positions 2k)
RECURSIVE AtRankV(_, _, _)
AtRankV(bag, k, r) == IF r <= Size(bag[k]) THEN k ELSE AtRankV(bag, k + 1, r - Size(bag[k]))
QCands(c, bag) ==
  LET n == Size(CleanTot(c, bag))
      S == {c.rnd[AtRankV(bag, 1, (j * (n - 1)) \div c.npre + 1)] : j \in 1..(c.npre - 1)}
  IN SelectSeq([i \in 1..(2 * NClTok(c) + 1) |-> i], LAMBDA i : i \in S)
Present(c, bag) == SelectSeq([i \in 1..NClTok(c) |-> i], LAMBDA i : Size(bag[i]) > 0)
\* the solve as an execution of the numerical binning of the bag
AsNum(c, bag, s) ==
  LET pr == Present(c, bag)  tt == VSum(bag)  sp == KindTot(c, bag, 1) IN
  [exc |-> "", o |-> [c.o EXCEPT !.ns = tt[1] + tt[2]], status |-> s.status, hasfixed |-> 0, fixed |-> <<>>,
   vals |-> [i \in 1..Len(pr) |-> <<2 * pr[i], bag[pr[i]][1], bag[pr[i]][2]>>],
   cand |-> QCands(c, bag), spl |-> s.spl, sp |-> <<<<sp>>>>, spdict |-> 0, miss |-> KindTot(c, bag, 2),
   wtot |-> tt[1] + tt[2], tab |-> s.tab, tot |-> s.tot, an |-> <<>>, same |-> s.same]
AsCat(c, bag, s) ==
  LET tt == VSum(bag)  sp == KindTot(c, bag, 1) IN
  [exc |-> "", o |-> [c.o EXCEPT !.ns = tt[1] + tt[2]], status |-> s.status, hasfixed |-> 0, fixed |-> <<>>,
   user |-> 0, cut |-> IF c.cutoff = 0 THEN -1 ELSE c.cutoff, ncut |-> tt[1] + tt[2],
   cats |-> [k \in 1..NClTok(c) |-> <<bag[k][1], bag[k][2], bag[k][1], bag[k][2]>>],
   grp |-> s.groups, sp |-> <<<<sp>>>>, spdict |-> 0, miss |-> KindTot(c, bag, 2),
   wtot |-> tt[1] + tt[2], tab |-> s.tab, tot |-> s.tot, an |-> <<>>, same |-> s.same]
\* categories as values in increasing order of event rate (no ties)
RateTie(d) == \E k, l \in Normal(d) : k # l /\ RateEq(RawCnt(d, {k}), RawCnt(d, {l}))
AsOrdered(d) ==
  LET nm == Normal(d)
      rk(k) == 1 + Cardinality({l \in nm : ~RateLe(RawCnt(d, {k}), RawCnt(d, {l}))})
      at(i) == CHOOSE k \in nm : rk(k) = i
      m == Cardinality(nm)
      upto(j) == SetMax({0} \cup {rk(k) : k \in UNION {GSet(d, g) : g \in 1..j}})
  IN [exc |-> "", o |-> d.o, status |-> d.status, hasfixed |-> 0, fixed |-> <<>>,
      vals |-> [i \in 1..m |-> <<2 * i, d.cats[at(i)][1], d.cats[at(i)][2]>>],
      cand |-> [i \in 1..(m - 1) |-> 2 * i + 1], spl |-> [j \in 1..(NG(d) - 1) |-> 2 * upto(j) + 1],
      tab |-> d.tab, an |-> <<>>]
Outc(d) == JudgeP(d, "C03") \cup JudgeP(d, "C04") \cup JudgeP(d, "C06")
\* approximate sketches: cumulative counts within the accuracy of the summaries
CumOK(c, bag, s, e) ==      \* e: 1 non-events, 2 events
  LET pr == Present(c, bag)  N == CleanTot(c, bag)[e]
      below(ps) == Sum([t \in 1..NClTok(c) |-> IF 2 * t < ps THEN bag[t][e] ELSE 0])
      cum(j) == Sum([i \in 1..j |-> s.tab[i][1 + e]])
  IN \A j \in 1..Len(s.spl) : Abs(cum(j) - below(s.spl[j])) <= (2 * N) \div c.inv_eps + 1
Approx(c, bag, s) ==
  LET nb == Len(s.spl) + 1  tt == VSum(bag) IN
  Cl(IsStrict(s.spl), "splits_increasing") \cup Cl(Len(s.tab) = nb + 2, "row_count") \cup
  (IF Len(s.tab) # nb + 2 THEN {} ELSE
     Cl(Row(s.tab, nb + 1) = KindTot(c, bag, 1) /\ Row(s.tab, nb + 2) = KindTot(c, bag, 2), "row_counts") \cup
     Cl(Tot2([i \in 1..nb |-> Row(s.tab, i)]) = CleanTot(c, bag), "bins_add_up") \cup
     Cl(s.tot[1] = tt[1] + tt[2] /\ s.tot[2] = tt[1] /\ s.tot[3] = tt[2], "totals") \cup
     Cl(CumOK(c, bag, s, 1) /\ CumOK(c, bag, s, 2), "within_accuracy"))
Solved(c, bag, s) ==
  LET cl == CleanTot(c, bag) IN
  Cl(s.info = 1, "information_runs") \cup
  IF c.num = 1 THEN
     IF ~Exact(c, bag) THEN Approx(c, bag, s)
     ELSE LET d == AsNum(c, bag, s)  a == C01F(d) IN
          a \cup (IF a # {} THEN {} ELSE
             Cl(s.same = 1, "table_repeatable") \cup Outc(d) \cup
             UNION {LET t == s.probe[j] IN Cl(t.exc = "", "transform_runs") \cup
                UNION {C02Row(d, t, t.rows[i]) : i \in 1..Len(t.rows)} : j \in 1..Len(s.probe)})
  ELSE LET d == AsCat(c, bag, s) IN
       IF MustRefuseAll(d) THEN
            Cl(Tot2([i \in 1..Len(s.tab) |-> Row(s.tab, i)]) = VSum(bag), "totals")
       ELSE LET a == C25Struct(d) \cup (IF C25Struct(d) # {} THEN {} ELSE CatTable(d)) IN
          a \cup (IF a # {} THEN {} ELSE
             Cl(s.same = 1, "table_repeatable") \cup
             (IF RateTie(d) \/ c.heur = 1 \/ NoRefine(d) THEN {} ELSE Outc(AsOrdered(d))) \cup
             UNION {LET t == s.probe[j] IN Cl(t.exc = "", "transform_runs") \cup
                UNION {CatTransRow(d, t, t.rows[i]) :
                   i \in {i \in 1..Len(t.rows) : CatRowOf(d, t.rows[i]) > 0}} : j \in 1..Len(s.probe)})

VARIABLES step, st, seen      \* pos (of V_Bin1D): finished cases
Start(k) == IF k > Len(Cases) THEN StInit(1, 1) ELSE StInit(Cases[k].ns, Len(Cases[k].toks))
NewCase == /\ pos' = pos + 1 /\ step' = 0 /\ seen' = {} /\ st' = Start(pos + 2)
           /\ IF pos + 1 = Len(Cases) THEN PrintT("END") ELSE TRUE
Report(c, f) == IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToString(c.id) \o " " \o ToString(f))
\* the step of the abstract machine that an operation must be
After(c, o) == CASE o.k = "add"   -> DoAdd(st, o.a, o.ch)
                 [] o.k = "merge" -> DoMerge(st, o.a, o.b)
                 [] OTHER         -> st
\* a parallel solver may return any of several equally good solutions
SameSol(c, q, s) ==
  /\ q[4] = s.status
  /\ \/ q[2] = s.spl /\ q[3] = s.tab
     \/ c.o.mip = 0 /\ q[2] # s.spl
        /\ \/ c.o.gamma > 0 \/ c.o.div \notin {"iv", "js"}
           \/ (IF c.o.div = "iv" THEN Abs(q[5][7] - s.tot[7]) <= 20 ELSE Abs(q[5][8] - s.tot[8]) <= 20)
ObsOK(ns, o) == \A i \in 1..Len(ns.bags) : o.obs[i] = <<>> \/ o.obs[i] = Counters(ns.bags[i])
StepFail(c, o, ns) ==
  (IF o.k = "solve" THEN
     (IF o.exc # "" THEN
        Cl(IF ns.fed[o.a] = 0 THEN o.exc = "NotFittedError"
           \* divergences are only defined when both classes were seen
           ELSE CleanTot(c, ns.bags[o.a])[1] = 0 \/ CleanTot(c, ns.bags[o.a])[2] = 0 \/ (c.num = 0 /\ MustRefuseAll(AsCat(c, ns.bags[o.a], [groups |-> <<>>, tab |-> <<>>, tot |-> <<>>, status |-> "", same |-> 1]))),
           "solve_fails")
      ELSE Solved(c, ns.bags[o.a], o.sol[1]) \cup
           \* the same bag, whatever its history, has the same solution
           Cl(~Exact(c, ns.bags[o.a]) \/
              \A q \in seen : q[1] = ns.bags[o.a] => SameSol(c, q, o.sol[1]),
              "depends_on_history"))
   ELSE Cl(o.exc = "", "operation_fails"))
  \cup Cl(ObsOK(ns, o), "counters")
InitS == pos = 0 /\ step = 0 /\ seen = {} /\ st = Start(1)
NextS ==
  /\ pos < Len(Cases)
  /\ LET c == Cases[pos + 1] IN
     IF step = Len(c.ops) THEN NewCase
     ELSE LET o == c.ops[step + 1]  ns == After(c, o)  f == StepFail(c, o, ns) IN
          /\ Report(c, f)
          /\ IF f # {} \/ (o.exc # "" /\ o.k # "solve") THEN NewCase
             ELSE /\ st' = ns /\ step' = step + 1 /\ pos' = pos
                  /\ seen' = IF o.k = "solve" /\ o.exc = ""
                             THEN seen \cup {<<ns.bags[o.a], o.sol[1].spl, o.sol[1].tab, o.sol[1].status, o.sol[1].tot>>} ELSE seen
SpecS == InitS /\ [][NextS]_<<pos, step, st, seen>>
=================================================================================
