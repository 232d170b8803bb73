-------------------------------- MODULE Table1D --------------------------------
\* Definitions of the binning-table statistics from the table's own counts.
\* A row is <<count, ne, e, count%, event rate, woe, iv, js>> (last five micro).
EXTENDS Bin1D

ER(b)  == IF b[1] = 0 \/ b[2] = 0 THEN 0 ELSE Ratio(b[2], b[1] + b[2])
WOE(b, T) == IF b[1] = 0 \/ b[2] = 0 THEN 0
             ELSE (Ln(b[1]) - Ln(b[2])) + (Ln(T[2]) - Ln(T[1]))
\* Jensen-Shannon / IV contributions of a row are zero when it is empty or pure
JSrow(b, T) == IF b[1] = 0 \/ b[2] = 0 THEN 0 ELSE DivJS(b[1], b[2], T[1], T[2])

C07Table(tab, tot, same) ==
  LET n == Len(tab)
      rows == [i \in 1..n |-> <<tab[i][2], tab[i][3]>>]
      T == Tot2(rows)
      ok == T[1] > 0 /\ T[2] > 0
      N == T[1] + T[2]
  IN
  IF ~ok THEN {} ELSE
  Cl(\A i \in 1..n : Near(tab[i][4], Ratio(tab[i][1], N), 2), "count_pct") \cup
  Cl(\A i \in 1..n : Near(tab[i][5], ER(rows[i]), 2), "event_rate") \cup
  Cl(\A i \in 1..n : Near(tab[i][6], WOE(rows[i], T), 6), "woe") \cup
  Cl(\A i \in 1..n : Near(tab[i][7], DivIV(rows[i][1], rows[i][2], T[1], T[2]), 12), "iv") \cup
  Cl(\A i \in 1..n : Near(tab[i][8], JSrow(rows[i], T), 12), "js") \cup
  Cl(tot[1] = N /\ tot[2] = T[1] /\ tot[3] = T[2], "totals_counts") \cup
  Cl(Near(tot[4], SC, 0) /\ Near(tot[5], Ratio(T[2], N), 2), "totals_rates") \cup
  Cl(Near(tot[7], SumTo([i \in 1..n |-> tab[i][7]], n), 6 + n) /\
     Near(tot[8], SumTo([i \in 1..n |-> tab[i][8]], n), 6 + n), "totals_divergence") \cup
  Cl(same = 1, "digits_and_totals_do_not_change_values")

\* ---- Gini: order rows by non-event rate; 1 - sum ev_i (ne_i + 2 sum_{j<i} ne_j) / (Te Tne)
\* ties in the rate do not matter for the value.
GiniSum(rows) ==      \* sum over ordered pairs of ev_i * w where w = ne_i + 2*sum ne of lower-rate rows
  LET n == Len(rows)
      lower(j, i) == \* rate_j < rate_i or (equal and j < i)
         LET a == rows[j][1] * Size(rows[i])  b == rows[i][1] * Size(rows[j]) IN a < b \/ (a = b /\ j < i)
      f(i) == rows[i][2] * (rows[i][1] + 2 * Sum([j \in 1..n |-> IF Size(rows[j]) > 0 /\ j # i /\ lower(j, i) THEN rows[j][1] ELSE 0]))
  IN Sum([i \in 1..n |-> IF Size(rows[i]) = 0 THEN 0 ELSE f(i)])
GiniOf(rows) ==
  LET T == Tot2(rows)  ne == Cardinality({i \in 1..Len(rows) : Size(rows[i]) > 0}) IN
  IF ne <= 1 THEN 0 ELSE SC - DivM(Ratio(GiniSum(rows), T[2]), T[1] * SC)

RECURSIVE CumAbs(_, _, _, _)
CumAbs(rows, T, k, acc) ==   \* sequence of |cum p - cum q|
  IF k > Len(rows) THEN <<>>
  ELSE LET a == Add2(acc, rows[k]) IN
       <<Abs(Ratio(a[2], T[2]) - Ratio(a[1], T[1]))>> \o CumAbs(rows, T, k + 1, a)
KSOf(rows) == MaxSeq(CumAbs(rows, Tot2(rows), 1, Zero2))
HHIOf(rows) == LET N == Size(Tot2(rows)) IN
  Sum([i \in 1..Len(rows) |-> MulM(Ratio(Size(rows[i]), N), Ratio(Size(rows[i]), N))])
HHIn(rows) == LET n == Len(rows)  h == HHIOf(rows) IN
  DivM(h - SC \div n, SC - SC \div n)
\* chi-square statistic of rows a..b as micro (all expected counts positive)
ChiCell(o, rt, ct, N) == \* (o - E)^2 / E, E = rt*ct/N
  LET d == o * N - rt * ct   \* scaled by N
      e == Ratio(rt * ct, N)
      dm == IF d >= 0 THEN Ratio(d, N) ELSE -Ratio(-d, N)
  IN MulM(dm, DivM(dm, e))
ChiOf(rows) ==
  LET T == Tot2(rows)  N == Size(T) IN
  Sum([i \in 1..Len(rows) |-> ChiCell(rows[i][1], Size(rows[i]), T[1], N) + ChiCell(rows[i][2], Size(rows[i]), T[2], N)])
ChiDefined(rows) == LET T == Tot2(rows) IN T[1] > 0 /\ T[2] > 0 /\ \A i \in 1..Len(rows) : Size(rows[i]) > 0

\* ---- significance tests of two rows; r = <<A, B, statistic, p, P[A > B], P[B > A]>>
\* the Bayesian comparison of the event rates, when it is beyond doubt
BayesOK(r, a, b) ==
  /\ Near(r[5] + r[6], SC, 2)
  /\ ~ZOk(a, b, 25 * SC, 1) \/ (IF b[2] * Size(a) < a[2] * Size(b) THEN r[5] >= 900000 ELSE r[6] >= 900000)
\* upper bounds of the p-value of a chi-square statistic with one degree of freedom
PBand(x, p) == /\ (x >= 3842000 => p <= 50050) /\ (x <= 3841000 => p >= 49950)
               /\ (x >= 6636000 => p <= 10050) /\ (x <= 6634000 => p >= 9950)
               /\ (x >= 2706000 => p <= 100050) /\ (x <= 2705000 => p >= 99950)
               /\ (x >= 455000 => p <= 500100) /\ (x <= 454800 => p >= 499900)
ChiTestOK(r, a, b) ==
  LET pr == <<a, b>> IN
  /\ (ChiDefined(pr) => NearR(r[3], ChiOf(pr), 30, 300) /\ (IsOrd(r[3]) => PBand(r[3], r[4])))
  /\ BayesOK(r, a, b)
\* Fisher's exact test: odds ratio, and the share of the tables that are no likelier than this one
FisherP(a, b) ==       \* <<least, largest>> value of p
  LET n1 == Size(a)  n2 == Size(b)  K == a[2] + b[2]  nn == n1 + n2
      ks == Max2(0, K - n2)..Min2(K, n1)
      lf[k \in 0..nn] == IF k = 0 THEN 0 ELSE lf[k - 1] + Ln(k)
      lw == [k \in ks |-> -(lf[k] + lf[n1 - k] + lf[K - k] + lf[n2 - (K - k)])]
      top == SetMax({lw[k] : k \in ks})
      w == [k \in ks |-> ExpM(lw[k] - top)]
      tie == 20 + nn
      S(Q) == SumOverSet(w, Q)
      all == S(ks)
  IN <<DivM(S({k \in ks : lw[k] < lw[a[2]] - tie}) , all), DivM(S({k \in ks : lw[k] <= lw[a[2]] + tie}), all)>>
FisherOK(r, a, b) ==
  LET x == a[1] * b[2]  y == b[1] * a[2]  pp == FisherP(a, b) IN
  /\ (y > 0 /\ x \div y < 1900 => NearR(r[3], Ratio(x, y), 5, 20))
  /\ (y = 0 /\ x > 0 => r[3] = PINF)
  /\ Size(a) = 0 \/ Size(b) = 0 \/ Size(a) + Size(b) > 200 \/
     (r[4] >= pp[1] - 400 /\ r[4] <= pp[2] + 400)
  /\ BayesOK(r, a, b)
Quality(an, ts) ==
  LET ps == [i \in 1..Len(ts) |-> ts[i][4]] IN
  Cl(Near(an.qs, an.r_qs, 2), "quality_score_reported") \cup
  Cl(~AllOrdS(ps) \/ ~IsOrd(an.iv) \/ Near(an.qs, QScore(an.iv, ps, an.hhin), 60), "quality_score")

C07An(tab, tot, nb, an) ==
  LET n == Len(tab)
      rows == [i \in 1..n |-> <<tab[i][2], tab[i][3]>>]
      T == Tot2(rows)
      ok == T[1] > 0 /\ T[2] > 0
      bins == [i \in 1..nb |-> rows[i]]
      nz == [i \in 1..n |-> IF rows[i][1] = 0 \/ rows[i][2] = 0 THEN 0 ELSE 1]
      hel == Sum([i \in 1..n |-> IF nz[i] = 0 THEN 0 ELSE DivHel(rows[i][1], rows[i][2], T[1], T[2])])
      tri == Sum([i \in 1..n |-> IF nz[i] = 0 THEN 0 ELSE DivTri(rows[i][1], rows[i][2], T[1], T[2])])
      chidef == nb >= 2 /\ ChiDefined(bins)
      Nb == Size(Tot2(bins))
  IN
  IF ~ok THEN {} ELSE
  Cl(Near(an.iv, tot[7], 1) /\ Near(an.js, tot[8], 1), "iv_js_properties") \cup
  Cl(Near(an.hel, hel, 10 + 3 * n), "hellinger") \cup
  Cl(Near(an.tri, tri, 10 + 3 * n), "triangular") \cup
  Cl(Near(an.gini, GiniOf(rows), 12), "gini") \cup
  Cl(Near(an.ks, KSOf(rows), 4), "ks") \cup
  (IF an.done = 0 THEN {} ELSE
    Cl(Near(an.r_gini, an.gini, 1) /\ Near(an.r_iv, an.iv, 1) /\ Near(an.r_js, an.js, 1)
       /\ Near(an.r_hel, an.hel, 1) /\ Near(an.r_tri, an.tri, 1) /\ Near(an.r_ks, an.ks, 1), "report_values") \cup
    Cl(Near(an.hhi, HHIOf(rows), 4 + n), "hhi") \cup
    Cl(Near(an.hhin, HHIn(rows), 10 + 2 * n), "hhi_normalized") \cup
    Cl(~chidef \/ LET v == DivM(ChiOf(bins), Nb * SC) IN
         Near(MulM(an.cramer, an.cramer), v, 40 + 2 * n), "cramer_v") \cup
    Cl(nb >= 2 \/ an.cramer = 0, "cramer_v_single") \cup
    (IF "qs" \notin DOMAIN an \/ "tests" \in DOMAIN an THEN {}
     ELSE Quality(an, IF "tests_fisher" \in DOMAIN an THEN an.tests_fisher ELSE an.tests_chi2)) \cup
    Cl("tests_fisher" \notin DOMAIN an \/
       (/\ Len(an.tests_fisher) = nb - 1
        /\ \A i \in 1..(nb - 1) : LET r == an.tests_fisher[i] IN
             r[1] = i - 1 /\ r[2] = i /\ FisherOK(r, bins[i], bins[i + 1])), "fisher_tests") \cup
    Cl("tests_chi2" \notin DOMAIN an \/
       (/\ Len(an.tests_chi2) = nb - 1
        /\ \A i \in 1..(nb - 1) :
             LET r == an.tests_chi2[i] IN
             r[1] = i - 1 /\ r[2] = i /\ ChiTestOK(r, bins[i], bins[i + 1])), "significance_tests"))

\* ---- C05: the reported trend name agrees with the table
\* the label's concavity is that of the sequence of rates (second differences)
SeqConcave(bins) == LET r == [i \in 1..Len(bins) |-> Rate(bins[i])] IN
  \A i \in 2..(Len(bins) - 1) : 2 * r[i] - r[i - 1] - r[i + 1] >= -CurvTol
SeqConvex(bins) == LET r == [i \in 1..Len(bins) |-> Rate(bins[i])] IN
  \A i \in 2..(Len(bins) - 1) : r[i - 1] + r[i + 1] - 2 * r[i] >= -CurvTol
C05Trend(an, bins) ==
  IF an.done = 0 \/ \E i \in 1..Len(bins) : Size(bins[i]) = 0 THEN {} ELSE
  LET nm == an.trend
      \* pure bins are reported with event rate 0
      q == [i \in 1..Len(bins) |-> IF IsPure(bins[i]) THEN <<1, 0>> ELSE bins[i]]
  IN Cl(CASE nm = "ascending" -> AscOK(q)
          [] nm = "descending" -> DescOK(q)
          [] nm = "peak" -> PeakOK(q)
          [] nm = "peak (concave)" -> PeakOK(q) /\ SeqConcave(q)
          [] nm = "valley" -> ValleyOK(q)
          [] nm = "valley (convex)" -> ValleyOK(q) /\ SeqConvex(q)
          [] nm = "no monotonic" -> ~PeakOK(q) /\ ~ValleyOK(q)
          [] nm = "undefined" -> Len(q) = 1
          [] OTHER -> FALSE, "reported_trend")
================================================================================
