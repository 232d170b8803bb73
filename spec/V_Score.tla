--------------------------------- MODULE V_Score --------------------------------
EXTENDS Score, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
IsInt(x) == IsOrd(x) /\ (x % SC) = 0

FitOk(c, f) ==
  LET nv == Len(f.vars)
      rng == RMax(f) - RMin(f)
      rmin == RMin(f)
      Rec(i, j) == c.recs[i][f.vars[j].i]
      known == {i \in 1..Len(c.recs) : \A j \in 1..nv : RowOfVal(f.vars[j], Rec(i, j)) # 0}
      T(i) == Sum([j \in 1..nv |-> Raw(f.vars[j], RowOfVal(f.vars[j], Rec(i, j)))])
      Pt(i) == Sum([j \in 1..nv |-> f.vars[j].pts[RowOfVal(f.vars[j], Rec(i, j))]])
      sane == f.method # "min_max" \/ rng > 100000
      tol == Tol(f, rng)
      slack == IF f.rnd = 1 THEN (nv + 1) * (SC \div 2) + IF f.method = "min_max" THEN nv * (SC \div 2) ELSE 0 ELSE 0
  IN
  Cl(f.same = 1, "summary_and_detailed_agree") \cup
  Cl(f.tabvars = [j \in 1..nv |-> f.vars[j].i], "table_variables") \cup
  UNION {LET v == f.vars[j] IN
     Cl(v.ids = [r \in 1..NRow(v) |-> r - 1], "bin_ids") \cup
     Cl(NRow(v) = (IF v.num = 1 THEN Len(v.spl) + 1 ELSE Len(v.grp)) + v.nsp + 1, "row_count") \cup
     Cl(\A r \in 1..NRow(v) : Near(v.tcoef[r], v.coef, 2), "coefficient") : j \in 1..nv} \cup
  IF \E j \in 1..nv : NRow(f.vars[j]) # (IF f.vars[j].num = 1 THEN Len(f.vars[j].spl) + 1 ELSE Len(f.vars[j].grp)) + f.vars[j].nsp + 1
     \/ \E r \in 1..NRow(f.vars[j]) : ~IsOrd(f.vars[j].pts[r]) \/ ~IsOrd(ModelVal(f.vars[j], r))
  THEN IF rng = 0 /\ f.method = "min_max" THEN {} ELSE {"points_are_numbers"} ELSE
  \* the model
  Cl(\A i \in known : Near(f.dec[i], T(i) + f.b0, 30), "model_uses_bin_values") \cup
  \* the score is the intercept plus the points of the record's rows
  Cl(\A i \in known : Near(f.scores[i], f.inter + Pt(i), 20), "score_is_sum_of_points") \cup
  \* points
  (IF f.method = "none" /\ f.icpt = 0
   THEN UNION {Cl(\A r \in 1..NRow(f.vars[j]) : Near(f.vars[j].pts[r], Raw(f.vars[j], r), 60), "unscaled_points") : j \in 1..nv}
   ELSE {}) \cup
  (IF f.icpt = 0 THEN Cl(f.inter = 0, "intercept_zero")
   ELSE UNION {Cl(Near(MinSeq(f.vars[j].pts), 0, 5), "intercept_based_minimum") : j \in 1..nv}) \cup
  (IF f.rnd = 1
   THEN Cl(\A j \in 1..nv : \A r \in 1..NRow(f.vars[j]) : IsInt(f.vars[j].pts[r]), "points_rounded")
        \cup Cl(IsInt(f.inter), "intercept_rounded")
   ELSE {}) \cup
  (IF ~sane THEN {}
   ELSE
     UNION {LET v == f.vars[j]
                lim == IF f.rnd = 0 THEN tol ELSE IF f.method = "min_max" THEN 2 * SC + tol ELSE SC + tol
            IN Cl(\A r, q \in 1..NRow(v) :
                    Near(v.pts[r] - v.pts[q], Scale(f, Raw(v, r) - Raw(v, q), rng), lim), "points_scaled")
               \cup Cl(\A r, q \in 1..NRow(v) :
                    Scale(f, Raw(v, r) - Raw(v, q), rng) > tol + 10000 => v.pts[r] >= v.pts[q], "points_order") : j \in 1..nv} \cup
     Cl(\A i \in known : Near(f.scores[i], Target(f, T(i), rmin, rng), tol + slack), "score_value") \cup
     Cl(f.rnd = 1 \/ \A i, k \in known :
          Scale(f, T(i) - T(k), rng) > 2 * tol => f.scores[i] > f.scores[k], "order_of_predictions") \cup
     (IF f.method = "min_max"
      THEN Cl(Near(f.inter + PMin(f), f.lo * SC, IF f.rnd = 1 THEN 0 ELSE tol), "reaches_minimum")
           \cup Cl(Near(f.inter + PMax(f), f.hi * SC, IF f.rnd = 1 THEN 0 ELSE tol), "reaches_maximum")
      ELSE {}))
Failed(c) ==
  UNION {IF c.fits[k].exc # "" THEN {"unexpected_error"} ELSE FitOk(c, c.fits[k]) : k \in 1..Len(c.fits)}
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
