------------------------------- MODULE MC_Process -------------------------------
\* Every history of fits, updates and queries of a process with two variables and
\* two known binnings each, under several selection criteria; emitted for replay.
EXTENDS BinProcess, TLC, IOUtils, Json, CSV
CONSTANTS D
\* rank of the single statistic of binning j of variable v
Rk(v, j) == IF v = 1 THEN j ELSE 5 - 2 * j     \* 1,2 and 3,1
Crits == { [on |-> 0, min |-> 0, max |-> 1000000, strat |-> "", top |-> 0, frac |-> 0],
           [on |-> 1, min |-> 2, max |-> 1000000, strat |-> "", top |-> 0, frac |-> 0],
           [on |-> 1, min |-> 0, max |-> 2, strat |-> "highest", top |-> 1, frac |-> 0],
           [on |-> 1, min |-> 0, max |-> 1000000, strat |-> "lowest", top |-> 0, frac |-> 2] }
Fixeds == { {}, {2} }
VARIABLES st, crit, fixed, hist, view     \* view: selection reported last
vars == <<st, crit, fixed, hist, view>>
RkOf(s) == [v \in 1..2 |-> <<Rk(v, s[v])>>]
Init == st = <<0, 0>> /\ crit \in Crits /\ fixed \in Fixeds /\ hist = <<>> /\ view = {}
Op(h, s, q) == hist' = Append(hist, h) /\ st' = s /\ view' = q /\ UNCHANGED <<crit, fixed>>
Query == IF Fitted(st) THEN Selections(<<crit>>, fixed, RkOf(st)) ELSE {}
Next == /\ Len(hist) < D
        /\ \/ Op(<<"fit">>, <<1, 1>>, {})
           \/ \E a, b \in {1, 2} : <<a, b>> # <<1, 1>> /\ Op(<<"dict", <<a, b>>>>, <<a, b>>, {})
           \/ \E v, j \in {1, 2} : Fitted(st) /\ Op(<<"update", v, j>>, DoUpdate(st, v, j), {})
           \/ \E k \in {"support", "summary", "transform"} : Op(<<k>>, st, Query)
        /\ IF Len(hist') = D /\ hist'[D][1] \in {"support", "transform"} /\ crit.on = 0
              /\ fixed = {} /\ "OUT" \in DOMAIN IOEnv
           THEN CSVWrite("%1$s", <<ToJson([hist |-> hist'])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars
FixedKept == \A S \in view : fixed \subseteq S
NonEmptyChoice == hist = <<>> \/ hist[Len(hist)][1] \notin {"support", "summary", "transform"} \/ (Fitted(st) <=> view # {})
\* without criteria everything is selected; selection depends on the standing binnings only
AllWithoutCriteria == crit.on = 1 \/ \A S \in view : S = {1, 2}
TopBound == crit.top = 0 \/ \A S \in view : Cardinality(S \ fixed) <= crit.top
MinKept == crit.strat # "" \/ crit.on = 0 \/ \A S \in view : \A v \in {1, 2} : (v \in S) <=> (v \in fixed \/ InRange(crit, Rk(v, st[v])))
=================================================================================
