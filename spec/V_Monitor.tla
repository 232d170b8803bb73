-------------------------------- MODULE V_Monitor -------------------------------
\* Monitoring reports as functions of an actual (1) and an expected (2) sample.
EXTENDS Score, TTab, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NRec(f, s) == Len(f.y[s])
\* score bin of record i of sample s
SBin(f, s, i) == 1 + Cardinality({j \in 1..Len(f.spl) : f.spl[j] <= f.score[s][i]})
In(f, s, b) == {i \in 1..NRec(f, s) : SBin(f, s, i) = b}
Ev(f, s, b) == Cardinality({i \in In(f, s, b) : f.y[s][i] # 0})
RECURSIVE SumOver(_, _)
SumOver(g, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + SumOver(g, S \ {x})

\* PSI of one row, a of A actual and e of E expected records
PsiRow(a, A, e, E) ==
  IF a = 0 /\ e = 0 THEN 0
  ELSE IF a = 0 \/ e = 0 THEN PINF
  ELSE MulM(Ratio(a, A) - Ratio(e, E), Ln(a) + Ln(E) - Ln(A) - Ln(e))
PsiTol == 30
PsiTableOk(tab, ca, ce, A, E, name) ==
  Cl(Len(tab) = Len(ca), name \o "_rows") \cup
  IF Len(tab) # Len(ca) THEN {} ELSE
  Cl(\A b \in 1..Len(ca) : tab[b][1] = ca[b] /\ tab[b][2] = ce[b], name \o "_counts") \cup
  Cl(\A b \in 1..Len(ca) : Near(tab[b][3], Ratio(ca[b], A), 3) /\ Near(tab[b][4], Ratio(ce[b], E), 3), name \o "_percent") \cup
  Cl(\A b \in 1..Len(ca) : Near(tab[b][5], PsiRow(ca[b], A, ce[b], E), PsiTol), name \o "_psi")
PsiTotal(ca, ce, A, E) ==
  LET rows == [b \in 1..Len(ca) |-> PsiRow(ca[b], A, ce[b], E)]
  IN IF \E b \in 1..Len(ca) : rows[b] = PINF THEN PINF ELSE Sum(rows)

\* chi-square of [[n1, n2], [e1, e2]]
Chi(n1, n2, e1, e2) ==
  LET r1 == n1 + n2  r2 == e1 + e2  c1 == n1 + e1  c2 == n2 + e2  d == n1 * e2 - n2 * e1
  IN IF r1 = 0 \/ r2 = 0 \/ c1 = 0 \/ c2 = 0 THEN NANV
     ELSE MulM(Ratio(d, r1 * c1), Ratio((r1 + r2) * d, r2 * c2))
ChiP(t, p) ==   \* critical values of one degree of freedom
  IF ~IsOrd(t) THEN p = NANV
  ELSE /\ p >= 0 /\ p <= SC
       /\ \A q \in {<<50000, 3841459>>, <<100000, 2705543>>, <<10000, 6634897>>, <<500000, 454936>>, <<1000, 10827566>>, <<900000, 15791>>} :
            /\ t > q[2] + 100 => p <= q[1] + 5
            /\ t < q[2] - 100 => p >= q[1] - 5
            
\* Welch's test of two groups: the statistic from the means and deviations, the
\* p-value bracketed by the t table at the test's own degrees of freedom
WelchDf(v1, na, v2, ne) ==       \* times 100
  LET r == DivM(v1, v1 + v2)  q == SC - r
  IN (100 * SC) \div Max2(1, (MulM(r, r) \div (na - 1)) + (MulM(q, q) \div (ne - 1)))
TRow(df) == IF df < 1 THEN 1 ELSE IF df > 120 THEN 121 ELSE df
WelchOk(ma, sa, na, me, se, ne, t, p) ==
  IF na < 2 \/ ne < 2 THEN TRUE
  ELSE IF ~(IsOrd(ma) /\ IsOrd(me) /\ IsOrd(sa) /\ IsOrd(se)) THEN FALSE
  ELSE LET v1 == MulM(sa, sa) \div na  v2 == MulM(se, se) \div ne  v == v1 + v2
       IN IF v < 2000 THEN TRUE
          ELSE /\ NearR(t, DivM(ma - me, SqrtM(v)), 2000, 2000)
               /\ p >= 0 /\ p <= SC
               /\ LET df == WelchDf(v1, na, v2, ne)
                      t2 == MulM(t, t) \div 1000
                  IN IF Abs(t) > 30 * SC THEN TRUE ELSE \A a \in {1, 5, 10, 20, 30, 50, 70, 90} :
                       LET hi == TSq(a)[TRow((df - 2) \div 100)]  lo == TSq(a)[TRow((df + 102) \div 100)] IN
                       /\ t2 > hi + 2 + hi \div 100 => p <= a * 10000 + 20
                       /\ t2 < lo - 2 - lo \div 100 => p >= a * 10000 - 20

RECURSIVE InsSort(_)
Insert(s, x) == LET k == Cardinality({i \in 1..Len(s) : s[i] <= x}) IN SubSeq(s, 1, k) \o <<x>> \o SubSeq(s, k + 1, Len(s))
InsSort(s) == IF s = <<>> THEN <<>> ELSE Insert(InsSort(Tail(s)), Head(s))
\* Continuous targets are odd multiples of one half, recorded doubled.
\* linear-interpolation percentile (q in quarters), in micro
Quart(s, q) == LET n == Len(s)  h == q * (n - 1)  lo == h \div 4  fr == h % 4
               IN s[lo + 1] * (SC \div 2) + (IF fr = 0 THEN 0 ELSE fr * (s[lo + 2] - s[lo + 1]) * (SC \div 8))
MeanS(S1, n) == Ratio(S1, 2 * n)
\* population deviation from the sum and the sum of squares of n doubled values
StdOk(std, s1, s2, n) == IsOrd(std) /\ std >= 0 /\
  LET m == Abs(MeanS(s1, n)) IN Near(MulM(std, std), Ratio(s2, 4 * n) - MulM(m, m), 400)
Sq(y) == [i \in 1..Len(y) |-> y[i] * y[i]]

TargetOk(c, f) ==
  IF c.target = "binary" THEN
    UNION {LET n == NRec(f, s)  e == Cardinality({i \in 1..n : f.y[s][i] # 0}) IN
       Cl(f.target[s] = <<n, e, n - e>>, "target_counts") \cup
       Cl(Near(f.targetp[s][1], Ratio(e, n), 2) /\ Near(f.targetp[s][2], Ratio(n - e, n), 2), "target_percent") : s \in {1, 2}}
  ELSE
    UNION {LET y == f.y[s]  so == InsSort(y) IN
       Cl(Near(f.target[s][1], MeanS(Sum(y), Len(y)), 3), "target_mean") \cup Cl(StdOk(f.target[s][2], Sum(y), Sum(Sq(y)), Len(y)), "target_std") \cup
       Cl(\A q \in 1..3 : Near(f.target[s][2 + q], Quart(so, q), 3), "target_percentiles") : s \in {1, 2}}

\* confusion counts
Conf(f, s, a, b) == Cardinality({i \in 1..NRec(f, s) : (f.y[s][i] # 0) = (a = 1) /\ (f.pred[s][i] # 0) = (b = 1)})
Perf(f, k, s) == f.perf[s][k]
PerfOk(c, f) ==
  Cl(\A k \in 1..Len(f.perfn) : IsOrd(f.perf[1][k]) /\ IsOrd(f.perf[2][k]) => Near(f.perf[3][k], f.perf[1][k] - f.perf[2][k], 3), "performance_difference") \cup
  IF c.target = "binary" THEN
    UNION {LET tp == Conf(f, s, 1, 1) tn == Conf(f, s, 0, 0) fp == Conf(f, s, 0, 1) fn == Conf(f, s, 1, 0)
               pr == f.proba[s]  P == {i \in 1..NRec(f, s) : f.y[s][i] # 0}  N == (1..NRec(f, s)) \ P
               conc == Cardinality({z \in P \X N : pr[z[1]] > pr[z[2]]})
               disc == Cardinality({z \in P \X N : pr[z[1]] < pr[z[2]]})
           IN Cl(/\ Near(Perf(f, 1, s), Ratio(tp, tp + fn), 3) /\ Near(Perf(f, 2, s), Ratio(tn, tn + fp), 3)
                 /\ Near(Perf(f, 3, s), Ratio(fp, tn + fp), 3) /\ Near(Perf(f, 4, s), Ratio(fn, tp + fn), 3)
                 /\ Near(Perf(f, 5, s), (Ratio(tp, tp + fn) + Ratio(tn, tn + fp)) \div 2, 4), "performance_rates") \cup
              Cl(tp * tn * fp * fn = 0 \/
                 Near(Perf(f, 6, s), MulM(551329, Ln(tp) + Ln(tn) - Ln(fp) - Ln(fn)), 20), "discriminant_power") \cup
              Cl(Near(Perf(f, 7, s), Ratio(conc - disc, Cardinality(P) * Cardinality(N)), 3), "gini") : s \in {1, 2}}
  ELSE
    UNION {LET n == NRec(f, s)  y == f.y[s]
               e == [i \in 1..n |-> y[i] * (SC \div 2) - f.pred[s][i]]
               ab == [i \in 1..n |-> Abs(e[i])]
               sq == [i \in 1..n |-> MulM(ab[i], ab[i]) \div n]
               em == Sum([i \in 1..n |-> e[i] \div n])
               sst == Ratio(Sum(Sq(y)), 4 * n) - MulM(Abs(MeanS(Sum(y), n)), Abs(MeanS(Sum(y), n)))
               sse == Sum(sq)
               rel == [i \in 1..n |-> DivM(ab[i], Abs(y[i]) * (SC \div 2))]
               sym == [i \in 1..n |-> DivM(ab[i], Abs(y[i]) * (SC \div 2) + Abs(f.pred[s][i]))]
               Q2(z) == LET o == InsSort(z) IN IF n % 2 = 1 THEN o[(n + 1) \div 2] ELSE (o[n \div 2] + o[n \div 2 + 1]) \div 2
               Avg(z) == Sum([i \in 1..n |-> z[i] \div n])
               K(nm) == CHOOSE k \in 1..Len(f.perfn) : f.perfn[k] = nm
               Is(nm, x, tol) == nm \in RangeOf(f.perfn) /\ (IsOrd(f.perf[s][K(nm)]) => NearR(f.perf[s][K(nm)], x, tol, 2000))
           IN IF \E i \in 1..n : ~IsOrd(f.pred[s][i]) \/ ab[i] > 40 * SC THEN {} ELSE
              Cl(Is("Mean absolute error", Avg(ab), 2 * n) /\ Is("Median absolute error", Q2(ab), 20), "absolute_errors") \cup
              Cl(Is("Mean squared error", sse, 3000), "mean_squared_error") \cup
              Cl(sst < 100000 \/ sse > 50 * sst \/
                 (/\ Is("R^2", SC - DivM(sse, sst), 4000)
                  /\ Is("Explained variance", SC - DivM(sse - MulM(Abs(em), Abs(em)), sst), 4000)), "explained_variance") \cup
              Cl(/\ Is("MAPE", Avg(rel), 2000) /\ Is("MdAPE", Q2(rel), 2000)
                 /\ Is("SMAPE", Avg(sym), 2000) /\ Is("SMdAPE", Q2(sym), 2000)
                 /\ Is("MPE", Avg([i \in 1..n |-> IF (e[i] < 0) = (y[i] < 0) THEN rel[i] ELSE -rel[i]]), 2000), "percentage_errors") : s \in {1, 2}}

RoundOk(c, f) ==
  IF f.exc # "" THEN {"unexpected_error"} ELSE
  LET nb == Len(f.spl) + 1
      A == NRec(f, 1)  E == NRec(f, 2)
      cn(s) == [b \in 1..nb |-> Cardinality(In(f, s, b))]
      ca == cn(1)  ce == cn(2)
  IN
  Cl(IsStrict(f.spl), "splits_increasing") \cup Cl(f.labels_agree = 1, "labels_agree") \cup
  Cl(f.bins = nb /\ Len(f.tests) = nb, "score_bins") \cup
  IF f.bins # nb \/ Len(f.tests) # nb THEN {} ELSE
  PsiTableOk(SubSeq(f.psi, 1, nb), ca, ce, A, E, "score") \cup
  Cl(f.psi[nb + 1][1] = A /\ f.psi[nb + 1][2] = E /\ f.psi[nb + 1][3] = SC /\ f.psi[nb + 1][4] = SC
     /\ Near(f.psi[nb + 1][5], PsiTotal(ca, ce, A, E), 50), "score_totals") \cup
  (IF c.target = "binary"
   THEN Cl(\A b \in 1..nb : LET e1 == Ev(f, 1, b) e2 == Ev(f, 2, b) IN
             /\ f.tests[b][1] = ca[b] /\ f.tests[b][2] = ce[b]
             /\ (ca[b] = 0 \/ Near(f.tests[b][3], Ratio(e1, ca[b]), 2)) /\ (ce[b] = 0 \/ Near(f.tests[b][4], Ratio(e2, ce[b]), 2)), "test_rates")
        \cup Cl(\A b \in 1..nb : LET e1 == Ev(f, 1, b) e2 == Ev(f, 2, b)
                                     x == Chi(ca[b] - e1, ce[b] - e2, e1, e2) IN
             ~IsOrd(x) \/ NearR(f.tests[b][5], x, 20, 100), "test_statistic")
        \cup Cl(\A b \in 1..nb : LET e1 == Ev(f, 1, b) e2 == Ev(f, 2, b)
                                     x == Chi(ca[b] - e1, ce[b] - e2, e1, e2) IN
             ~IsOrd(x) \/ ChiP(f.tests[b][5], f.tests[b][6]), "test_p_value")
   ELSE Cl(\A b \in 1..nb : LET ya == [s \in {1, 2} |-> SumOver(f.y[s], In(f, s, b))] IN
             /\ f.tests[b][1] = ca[b] /\ f.tests[b][2] = ce[b]
             /\ (ca[b] = 0 \/ Near(f.tests[b][3], MeanS(ya[1], ca[b]), 3)) /\ (ce[b] = 0 \/ Near(f.tests[b][4], MeanS(ya[2], ce[b]), 3)), "test_means")
        \cup Cl(\A b \in 1..nb : \A s \in {1, 2} : LET n == f.tests[b][s] IN
             n = 0 \/ StdOk(f.tests[b][4 + s], SumOver(f.y[s], In(f, s, b)), SumOver(Sq(f.y[s]), In(f, s, b)), n), "test_deviations")
        \cup Cl(\A b \in 1..nb : LET t == f.tests[b] IN
             WelchOk(t[3], t[5], ca[b], t[4], t[6], ce[b], t[7], t[8]), "test_statistic")) \cup
  (IF f.tables = 1 THEN TargetOk(c, f) \cup PerfOk(c, f) ELSE {}) \cup
  UNION {LET v == f.vars[j]
             vb == [val |-> v.val, nsp |-> v.nsp, spl |-> v.spl, grp |-> v.grp]
             vc(s) == [b \in 1..v.nr |-> Cardinality({i \in 1..Len(v.recs[s]) : RowOfVal(vb, v.recs[s][i]) = b})]
             va == vc(1)  ve == vc(2)
         IN Cl(v.bins = 1 /\ v.d1 = 1, "variable_bins") \cup
            PsiTableOk(v.tab, va, ve, A, E, "variable") \cup
            Cl(Near(v.tot, PsiTotal(va, ve, A, E), 50) /\ Near(v.tot1, PsiTotal(va, ve, A, E), 50), "variable_total") : j \in 1..Len(f.vars)}
Failed(c) == UNION {RoundOk(c, c.rounds[k]) : k \in 1..Len(c.rounds)}
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
