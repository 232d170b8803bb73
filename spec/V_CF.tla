---------------------------------- MODULE V_CF ----------------------------------
\* Counterfactual requests.  A counterfactual is a row (or 0: unchanged) per variable.
EXTENDS Score, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Margin == 200
QRow(c, q, j) == RowOfVal(c.vars[j], q.query[c.vars[j].i])
QVal(c, q, j) == ModelVal(c.vars[j], QRow(c, q, j))
CVal(c, q, j, r) == IF r = 0 THEN QVal(c, q, j) ELSE ModelVal(c.vars[j], r)
Act(c, q, cf) == c.b0 + Sum([j \in 1..c.nv |-> MulM(c.vars[j].coef, CVal(c, q, j, cf[j]))])
\* rows that may be chosen
Allowed(c, j) == IF c.sm = 1 THEN 1..NRow(c.vars[j]) ELSE 1..NBin(c.vars[j])
\* logit of y tenths
Logit(t) == Ln(t) - Ln(10 - t)
NeedMin(q) == (q.ot = "binary" /\ q.y = 1) \/ \E i \in 1..Len(q.hard) : q.hard[i] = "min_outcome"
NeedMax(q) == (q.ot = "binary" /\ q.y = 0) \/ \E i \in 1..Len(q.hard) : q.hard[i] = "max_outcome"
Bound(q) == CASE q.ot = "binary" -> 0 [] q.ot = "probability" -> Logit(q.y) [] q.ot = "continuous" -> q.y * SC
Reaches(c, q, cf, m) == /\ NeedMin(q) => Act(c, q, cf) >= Bound(q) + m
                        /\ NeedMax(q) => Act(c, q, cf) <= Bound(q) - m
Changed(cf) == {j \in 1..Len(cf) : cf[j] # 0}
Structure(c, q, cf) == /\ Cardinality(Changed(cf)) <= q.mc
                       /\ \A j \in Changed(cf) : q.act[j] = 1
Has(q, h) == \E i \in 1..Len(q.hard) : q.hard[i] = h
DivF(a, b) == Changed(a) # Changed(b)
DivV(a, b) == \A j \in Changed(a) \cap Changed(b) : a[j] # b[j]

\* every admissible counterfactual (choosing a row of the same value is no change)
RECURSIVE Build(_, _, _)
Build(c, q, j) ==
  IF j = 0 THEN {<<>>}
  ELSE LET ch == IF q.act[j] = 1 THEN {r \in Allowed(c, j) : ModelVal(c.vars[j], r) # QVal(c, q, j)} ELSE {}
       IN {Append(s, r) : s \in {t \in Build(c, q, j - 1) : Cardinality(Changed(t)) <= q.mc}, r \in ch \cup {0}}
All(c, q) == {s \in Build(c, q, c.nv) : Cardinality(Changed(s)) <= q.mc}
Found(q) == q.status \in {"OPTIMAL", "FEASIBLE"}
Exists(c, q, m) ==
  LET ok == {s \in All(c, q) : Reaches(c, q, s, m)}
      k == q.k
  IN IF k = 1 \/ (~Has(q, "diversity_features") /\ ~Has(q, "diversity_values")) THEN (IF ok # {} THEN "yes" ELSE "no")
     ELSE IF Cardinality(ok) > 150 THEN "unknown"
     ELSE IF k = 2 THEN (IF \E a, b \in ok : (Has(q, "diversity_features") => DivF(a, b)) /\ (Has(q, "diversity_values") => DivV(a, b)) THEN "yes" ELSE "no")
     ELSE IF ~Has(q, "diversity_values") THEN (IF Cardinality({Changed(a) : a \in ok}) >= k THEN "yes" ELSE "no")
     ELSE IF ok = {} THEN "no" ELSE "unknown"
\* a single-variable deviation makes the arithmetic of ties irrelevant
ReqOk(c, q) ==
  IF q.exc # "" THEN {"unexpected_error"}
  ELSE IF ~Found(q) THEN
     Cl(q.warn = 1 /\ q.cfs = <<>>, "nothing_shown_when_not_found") \cup
     Cl(q.status # "INFEASIBLE" \/ Exists(c, q, Margin) # "yes", "infeasible_is_true") 
  ELSE
     Cl(q.warn = 0 /\ Len(q.cfs) = q.k, "number_of_counterfactuals") \cup
     Cl(q.kept = 1, "unchanged_features_keep_their_value") \cup
     IF \E i \in 1..Len(q.cfs) : \E j \in 1..c.nv : q.cfs[i][j] = -1 THEN {"value_is_an_existing_bin"} ELSE
     UNION {LET cf == q.cfs[i] IN
        Cl(\A j \in Changed(cf) : cf[j] \in Allowed(c, j), "value_is_an_existing_bin") \cup
        Cl(\A j \in Changed(cf) : cf[j] # QRow(c, q, j), "change_is_a_change") \cup
        Cl(\A j \in Changed(cf) : q.act[j] = 1, "only_actionable") \cup
        Cl(Cardinality(Changed(cf)) <= q.mc, "max_changes") \cup
        Cl(Reaches(c, q, cf, -Margin), "reaches_outcome") \cup
        (IF q.ot = "continuous" THEN Cl(Near(q.out[i], Act(c, q, cf), 100), "shown_outcome")
         ELSE IF q.out[i] < 2000 \/ q.out[i] > 998000 THEN {}
         ELSE Cl(Near(Ln(q.out[i]) - Ln(SC - q.out[i]), Act(c, q, cf), 1000), "shown_outcome")) : i \in 1..Len(q.cfs)} \cup
     (IF q.k > 1 /\ Has(q, "diversity_features")
      THEN Cl(\A i, l \in 1..Len(q.cfs) : i # l => DivF(q.cfs[i], q.cfs[l]), "diversity_features") ELSE {}) \cup
     (IF q.k > 1 /\ Has(q, "diversity_values")
      THEN Cl(\A i, l \in 1..Len(q.cfs) : i # l => DivV(q.cfs[i], q.cfs[l]), "diversity_values") ELSE {}) \cup
     Cl(Exists(c, q, -Margin) # "no", "found_although_none_exists")
\* ------------------------------------------------- the closest admissible tuple
\* c.rng[j]: range of the points of feature j, c.F, c.mu: factor of the inverse covariance and mean
\* of the sample; q.objs: <<name, weight>> in the order of priority given
Proximity(c, q, cf) ==
  Sum([j \in 1..c.nv |-> IF cf[j] = 0 THEN 0 ELSE DivM(Abs(QVal(c, q, j) - CVal(c, q, j, cf[j])), c.rng[j])])
Closeness(c, q, cf) ==
  LET d == [j \in 1..c.nv |-> CVal(c, q, j, cf[j]) - c.mu[j]]
  IN Sum([i \in 1..c.nv |-> Abs(SumFrom([j \in 1..c.nv |-> IF j < i THEN 0 ELSE MulM(c.F[j][i], d[j])], i, c.nv))])
RECURSIVE Perm(_, _, _)             \* probability of an activation, per mille
Perm(a, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2
                   IN IF Ln(m) - Ln(1000 - m) <= a THEN Perm(a, m, hi) ELSE Perm(a, lo, m)
DiffOut(c, q, cf) == IF q.ot = "continuous" THEN Abs(Act(c, q, cf) - q.y * SC)
                     ELSE Abs(Perm(Act(c, q, cf), 1, 999) * 1000 - q.y * (SC \div 10))
One(c, q, nm, cf) == CASE nm = "proximity" -> Proximity(c, q, cf) [] nm = "closeness" -> Closeness(c, q, cf)
                       [] nm = "diff_outcome" -> DiffOut(c, q, cf) [] OTHER -> 0
SymF(a, b) == Cardinality({j \in 1..Len(a) : (a[j] = 0) # (b[j] = 0)})
SymV(a, b) == Sum([j \in 1..Len(a) |-> IF a[j] = b[j] THEN 0 ELSE IF a[j] = 0 \/ b[j] = 0 THEN 1 ELSE 2])
SumPairs(t, h(_, _)) == Sum([i \in 1..Len(t) |-> Sum([j \in 1..Len(t) |-> IF i < j THEN h(t[i], t[j]) ELSE 0])])
PairsOf(k) == {x \in (1..k) \X (1..k) : x[1] < x[2]}
\* P: per-counterfactual objectives of the tuple's members
TObj(nm, t, P) ==
  CASE nm = "diversity_features" -> -SC * SumPairs(t, SymF)
    [] nm = "diversity_values" -> -SC * SumPairs(t, SymV)
    [] OTHER -> Sum([i \in 1..Len(t) |-> P[t[i]]])
Slack(q, nm) == 1000 * q.k + IF nm = "diff_outcome" /\ q.ot = "probability" THEN 30000 * q.k ELSE 0
RECURSIVE Tuples(_, _)
Tuples(S, k) == IF k = 0 THEN {<<>>} ELSE {Append(t, a) : t \in Tuples(S, k - 1), a \in S}
DivOk(q, t) == \A x \in PairsOf(Len(t)) : /\ Has(q, "diversity_features") => DivF(t[x[1]], t[x[2]])
                                          /\ Has(q, "diversity_values") => DivV(t[x[1]], t[x[2]])
NoDiv(q) == ~Has(q, "diversity_features") /\ ~Has(q, "diversity_values")
            /\ \A i \in 1..Len(q.objs) : q.objs[i][1] \notin {"diversity_features", "diversity_values"}
OptOk(c, q) ==
  LET ok == {s \in All(c, q) : Reaches(c, q, s, Margin)}
      n == Cardinality(ok)
      ret == q.cfs
      dom == ok \cup RangeOf(ret)
      nm == [i \in 1..Len(q.objs) |-> q.objs[i][1]]
      w == [i \in 1..Len(q.objs) |-> q.objs[i][2]]
      P == [i \in 1..Len(nm) |-> [s \in dom |-> One(c, q, nm[i], s)]]
      Wt(s) == Sum([i \in 1..Len(nm) |-> w[i] * P[i][s]])
      slack == Sum([i \in 1..Len(nm) |-> w[i] * Slack(q, nm[i])])
      T == IF q.k = 1 THEN {<<s>> : s \in ok} ELSE {t \in Tuples(ok, q.k) : DivOk(q, t)}
      O == [i \in 1..Len(nm) |-> [t \in T \cup {ret} |-> TObj(nm[i], t, P[i])]]
      TolO(i, v) == Slack(q, nm[i]) + Abs(v) \div 500
      Best(i, S) == SetMin({O[i][t] : t \in S})
      \* tuples that stay within the tolerance of the best value of an earlier objective, surely (sgn < 0) or possibly
      Within(i, S, v, sgn) == {t \in S : O[i][t] <= v + MulM(Abs(v), 100000) + sgn * TolO(i, v)}
      Surely(i, S) == Within(i, S, Best(i, S), -1)
  IN IF ok = {} THEN {}
     ELSE IF NoDiv(q) /\ q.method = "weighted" THEN
       LET best == SetMin({Wt(s) : s \in ok})
       IN Cl(\A i \in 1..Len(ret) : Wt(ret[i]) <= best + slack + best \div 500, "closest_counterfactual")
     ELSE IF (q.k = 2 /\ n > 40) \/ (q.k = 3 /\ n > 11) \/ q.k > 3 THEN {}
     ELSE IF T = {} THEN {}
     ELSE IF q.method = "weighted" THEN
       LET v(t) == Sum([i \in 1..Len(nm) |-> w[i] * O[i][t]])
           best == SetMin({v(t) : t \in T})
       IN Cl(v(ret) <= best + slack + Abs(best) \div 500, "closest_counterfactuals")
     ELSE
       LET v1 == Best(1, T)
           S1 == Surely(1, T)
       IN Cl(O[1][ret] <= v1 + (IF Len(nm) = 1 THEN 0 ELSE MulM(Abs(v1), 100000)) + TolO(1, v1), "first_priority") \cup
          (IF Len(nm) < 2 \/ S1 = {} THEN {}
           ELSE LET v2 == Best(2, S1)
                IN Cl(O[2][ret] <= v2 + (IF Len(nm) = 2 THEN 0 ELSE MulM(Abs(v2), 100000)) + TolO(2, v2), "second_priority") \cup
                   (IF Len(nm) < 3 THEN {}
                    ELSE LET v2min == Best(2, Within(1, T, v1, 1))
                             S2 == {t \in S1 : O[2][t] <= v2min + MulM(Abs(v2min), 100000) - TolO(2, v2min)}
                         IN IF S2 = {} \/ Len(nm) > 3 THEN {}
                            ELSE Cl(O[3][ret] <= Best(3, S2) + TolO(3, Best(3, S2)), "third_priority")))
Prop == IOEnv.PROP
Optimal(c) ==
  IF c.triv = 1 \/ c.exc # "" \/ c.fok = 0 THEN {}
  ELSE UNION {LET q == c.reqs[i] IN
         IF q.exc # "" \/ q.status # "OPTIMAL" \/ Len(q.cfs) # q.k
            \/ \E k \in 1..Len(q.cfs) : \E j \in 1..c.nv : q.cfs[k][j] = -1 THEN {}
         ELSE OptOk(c, q) : i \in 1..Len(c.reqs)}
Failed(c) ==
  IF Prop = "C28" THEN Optimal(c)
  ELSE IF c.triv = 1 THEN {}
  ELSE IF c.exc # "" THEN {"unexpected_error"}
  ELSE Cl(c.unchanged = 1, "scorecard_unchanged") \cup
       UNION {ReqOk(c, c.reqs[i]) : i \in 1..Len(c.reqs)}
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
