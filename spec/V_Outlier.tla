-------------------------------- MODULE V_Outlier -------------------------------
\* Outlier detectors as exact functions of integer samples, and binnings that use them as
\* binnings of the sample without the flagged clean records.
EXTENDS Num, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
RECURSIVE InsSort(_)
Insert(q, v) == LET k == Cardinality({i \in 1..Len(q) : q[i] <= v}) IN SubSeq(q, 1, k) \o <<v>> \o SubSeq(q, k + 1, Len(q))
InsSort(q) == IF q = <<>> THEN <<>> ELSE Insert(InsSort(Tail(q)), Head(q))
\* linear interpolation quantile a/b of the sorted sequence s, times b
Quant(s, a, b) == LET h == a * (Len(s) - 1)  lo == h \div b  fr == h % b
                  IN b * s[lo + 1] + (IF fr = 0 THEN 0 ELSE fr * (s[lo + 2] - s[lo + 1]))
\* sets of admissible flags of the sequence q (x16 arithmetic; L in quarters, k in halves)
Flags(q, lo8, hi8, k) ==
  [i \in 1..Len(q) |-> IF 16 * q[i] > 2 * hi8 + k * (hi8 - lo8) \/ 16 * q[i] < 2 * lo8 - k * (hi8 - lo8) THEN 1 ELSE 0]
Eti(q, d) == LET s == InsSort(q) IN {Flags(q, Quant(s, 4 - d.L, 8), Quant(s, 4 + d.L, 8), d.k)}
\* shortest windows holding (at least) the fraction L of the sample
Hdi(q, d) ==
  LET s == InsSort(q)  n == Len(q)  m0 == Max2(1, CeilDiv(d.L * n, 4))
      Win(m) == LET W == {j \in 1..(n - m + 1) : \A i \in 1..(n - m + 1) : s[j + m - 1] - s[j] <= s[i + m - 1] - s[i]}
                IN {Flags(q, 8 * s[j], 8 * s[j + m - 1], d.k) : j \in W}
  IN Win(m0) \cup Win(Min2(n, m0 + 1))
\* the modified z-score, threshold in tenths: |0.6745 (x - med) / mad| > thr
Med2(q) == LET s == InsSort(q)  n == Len(q) IN IF n % 2 = 1 THEN 2 * s[n \div 2 + 1] ELSE s[n \div 2] + s[n \div 2 + 1]
ZOk(q, d, f) ==
  LET md == Med2(q)
      dev == [i \in 1..Len(q) |-> Abs(2 * q[i] - md)]
      mad == Med2(dev)              \* 4 * mad
      lhs(i) == 6745 * 2 * dev[i]
      rhs == d.thr * 1000 * mad
  IN IF mad = 0 THEN \A i \in 1..Len(q) : f[i] = 1 => dev[i] > 0
     ELSE \A i \in 1..Len(q) : /\ lhs(i) > rhs => f[i] = 1
                               /\ lhs(i) < rhs => f[i] = 0
                               /\ dev[i] = 0 => f[i] = 0
DetOk(q, d, f) ==
  /\ Len(f) = Len(q)
  /\ IF q = <<>> THEN TRUE
     ELSE CASE d.m = "ETI" -> f \in Eti(q, d) [] d.m = "HDI" -> f \in Hdi(q, d) [] d.m = "Z" -> ZOk(q, d, f)
Sub(q, I) == LET m == Cardinality(I) IN [k \in 1..m |-> q[CHOOSE i \in I : Cardinality({j \in I : j < i}) = k - 1]]
\* y-quantile detector: bins between the distinct quantiles of x (without the extremes), each judged on y
YqOk(x, y, d, f) ==
  LET s == InsSort(x)
      Q == {Quant(s, i, d.nb) : i \in 0..d.nb}
      C == {v \in Q : \E a \in Q, b \in Q : a < v /\ v < b}
      bin(i) == Cardinality({v \in C : v <= d.nb * x[i]})
  IN \A b \in 0..Cardinality(C) :
       LET I == {i \in 1..Len(x) : bin(i) = b} IN I = {} \/ DetOk(Sub(y, I), d, Sub(f, I))
Judge(x, y, d, f) == IF x = <<>> THEN f = <<>> ELSE IF d.yq = 1 THEN YqOk(x, y, d, f) ELSE DetOk(x, d, f)

Alone(c) ==
  Cl(Judge(c.x, c.y, c, c.flag), "wrong_outliers") \cup
  Cl(c.idx = InsSort(c.idx) /\ RangeOf(c.idx) = {i \in 1..Len(c.flag) : c.flag[i] = 1} /\ Len(c.idx) = Sum(c.flag), "indices_differ_from_mask") \cup
  Cl(c.nofit = 1, "support_before_fit") \cup Cl(c.same = 1, "input_modified")

\* ------------------------------------------------------------------ inside a binning
Clean(c) == {i \in 1..Len(c.x) : c.cls[i] = 0}
Kept(c) == {i \in Clean(c) : c.flag[i] = 0}
BinOf(c, i) == 1 + Cardinality({k \in 1..Len(c.spl) : c.spl[k] <= 4 * c.x[i]})
WOf(c, I) == Sum([i \in 1..Len(c.x) |-> IF i \in I THEN IF c.w = <<>> THEN 1 ELSE c.w[i] ELSE 0])
WSum(c, I, h(_)) == Sum([i \in 1..Len(c.x) |-> IF i \in I THEN (IF c.w = <<>> THEN 1 ELSE c.w[i]) * h(c.y[i]) ELSE 0])
Row(c, I) == IF c.kind \in {"bin", "pwb"} THEN <<WOf(c, I), WSum(c, I, LAMBDA v : IF v = 0 THEN 0 ELSE 1)>>
             ELSE IF c.kind \in {"cont", "pwc"} THEN <<WOf(c, I), WSum(c, I, LAMBDA v : v)>>
             ELSE <<WSum(c, I, LAMBDA u : c.pres[u + 1])>> \o [v \in 1..3 |-> WSum(c, I, LAMBDA u : IF u = v - 1 /\ c.pres[v] = 1 THEN 1 ELSE 0)]
\* two optimal selections of the same sample need not coincide when they are equally good
IvOf(t, n) == LET e == Sum([b \in 1..n |-> t[b][2]])  m == Sum([b \in 1..n |-> t[b][1]]) - e
              IN Sum([b \in 1..n |-> LET a == t[b][2]  z == t[b][1] - a
                       IN IF a = 0 \/ z = 0 THEN 0 ELSE MulM(Ratio(z, m) - Ratio(a, e), Ln(z) + Ln(e) - Ln(a) - Ln(m))])
L1Of(t, n) == LET s == Sum([b \in 1..n |-> t[b][2]])  m == Sum([b \in 1..n |-> t[b][1]])
              IN Sum([b \in 1..n |-> IF t[b][1] = 0 THEN 0 ELSE Abs(Ratio(t[b][2], t[b][1]) - Ratio(s, m))])
EquallyGood(c, x) ==
  LET n == Len(c.tab) - x  n2 == Len(c.tab2) - x
  IN /\ n >= 1 /\ n2 >= 1 /\ c.kind # "multi"
     /\ IF c.kind \in {"bin", "pwb"} THEN Near(IvOf(c.tab, n), IvOf(c.tab2, n2), 40) ELSE Near(L1Of(c.tab, n), L1Of(c.tab2, n2), 40)
Inside(c) ==
  LET x == Sub(c.x, Clean(c))  y == Sub(c.y, Clean(c))  f == Sub(c.flag, Clean(c))
      nb == Len(c.spl) + 1
      sp == {i \in 1..Len(c.x) : c.cls[i] = 2}  ms == {i \in 1..Len(c.x) : c.cls[i] = 1}
      nsp == IF c.spd = 1 THEN 2 ELSE 1
  IN IF c.flag = <<>> THEN {"unexpected_error_" \o c.exc} ELSE
     Cl(Judge(x, y, c, f), "wrong_outliers") \cup
     Cl((c.exc = "") = (c.exc2 = ""), "fit_fails_unlike_reduced_sample") \cup
     IF c.exc # "" \/ c.exc2 # "" THEN {} ELSE
     Cl(c.spl = c.spl2 \/ EquallyGood(c, nsp + 1), "splits_differ_from_reduced_sample") \cup
     Cl(c.spl # c.spl2 \/ c.tab = c.tab2, "table_differs_from_reduced_sample") \cup Cl(c.st = c.st2, "status_differs_from_reduced_sample") \cup
     Cl(Len(c.tab) = nb + nsp + 1, "rows") \cup
     IF Len(c.tab) # nb + nsp + 1 THEN {} ELSE
     Cl(\A b \in 1..nb : c.tab[b] = Row(c, {i \in Kept(c) : BinOf(c, i) = b}), "bin_records") \cup
     Cl(LET S == [k \in 1..Len(c.tab[1]) |-> Sum([b \in 1..nsp |-> c.tab[nb + b][k]])] IN S = Row(c, sp), "special_records") \cup
     Cl(c.tab[nb + nsp + 1] = Row(c, ms), "missing_records")
\* the preprocessing step: detector first, then the fixed bounds; every record in exactly one part
Split(c) ==
  LET I == Clean(c)  n == Cardinality(I)
      Nth(k) == CHOOSE i \in I : Cardinality({j \in I : j < i}) = k - 1
      In(i) == (c.lb = <<>> \/ c.x[i] >= c.lb[1]) /\ (c.ub = <<>> \/ c.x[i] <= c.ub[1])
      got == RangeOf(c.clean)
      Okay(f) == {Nth(k) : k \in {k \in 1..n : f[k] = 0 /\ In(Nth(k))}} = got
      \* records outside the bounds do not show whether the detector flagged them
      free == {k \in 1..n : ~In(Nth(k))}
      base == [k \in 1..n |-> IF Nth(k) \in got THEN 0 ELSE 1]
      x == Sub(c.x, I)  y == Sub(c.y, I)
      shown == [k \in 1..n |-> IF k \in free THEN 2 ELSE base[k]]
      Match(F) == \E f \in F : \A k \in 1..n : shown[k] = 2 \/ shown[k] = f[k]
      right == CASE c.nodet = 1 \/ n = 0 -> \A k \in 1..n : shown[k] # 1
                 [] c.yq = 1 \/ c.m = "Z" -> TRUE
                 [] c.m = "ETI" -> Match(Eti(x, c))
                 [] c.m = "HDI" -> Match(Hdi(x, c))
  IN Cl(IsStrict(c.clean) /\ IsStrict(c.miss) /\ IsStrict(c.spec), "order_kept") \cup
     Cl(RangeOf(c.miss) = {i \in 1..Len(c.x) : c.cls[i] = 1}, "missing_records") \cup
     Cl(RangeOf(c.spec) = {i \in 1..Len(c.x) : c.cls[i] = 2}, "special_records") \cup
     Cl(got \subseteq {i \in I : In(i)}, "outside_bounds_kept") \cup
     Cl(right, "wrong_outliers") \cup Cl(c.agree = 1, "values_follow_records")
Failed(c) ==
  IF c.kind = "none" THEN {}
  ELSE IF c.kind = "split" THEN IF c.exc # "" THEN IF Clean(c) = {} THEN {} ELSE {"unexpected_error_" \o c.exc} ELSE Split(c)
  ELSE IF c.kind \in {"det", "yq"} THEN IF c.exc # "" THEN {"unexpected_error_" \o c.exc} ELSE Alone(c)
  ELSE Inside(c)
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
