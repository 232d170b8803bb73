---------------------------------- MODULE V_Plot --------------------------------
\* Figures as functions of the tables they visualise: which rows are shown, where, and with which values.
EXTENDS Num, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Eq(a, b, t) == a = b \/ (IsOrd(a) /\ IsOrd(b) /\ Abs(a - b) <= t)
\* ---- rows of a one dimensional table: clean rows, the row of the other categories, special rows, the missing row
NClean(f) == f.n - 1 - f.ns - f.no
KindOf(f, i) == IF i <= NClean(f) THEN "clean" ELSE IF i <= NClean(f) + f.no THEN "others" ELSE IF i < f.n THEN "special" ELSE "missing"
Shown(f, i) == CASE KindOf(f, i) \in {"clean", "others"} -> TRUE
                 [] KindOf(f, i) = "special" -> f.style = "bin" /\ f.sp = 1
                 [] OTHER -> f.style = "bin" /\ f.mi = 1
Vis(f) == SelectSeq([i \in 1..f.n |-> i], LAMBDA i : Shown(f, i))
RECURSIVE Below(_, _, _)
Below(f, s, i) == IF s = 1 THEN 0 ELSE f.H[s - 1][i] + Below(f, s - 1, i)
HatchOf(f, i) == CASE KindOf(f, i) = "special" -> 1 [] KindOf(f, i) = "missing" -> 2 [] OTHER -> 0
\* bars: left end, width, bottom, height, hatch
BarBad(f, v, s) ==
  IF Len(f.ser[s]) # Len(v) THEN {"bars_of_series"}
  ELSE Cl(\A k \in 1..Len(v) : Eq(f.ser[s][k][4], f.H[s][v[k]], 1), "bar_height") \cup
       Cl(\A k \in 1..Len(v) : Eq(f.ser[s][k][3], Below(f, s, v[k]), 1), "bar_bottom")
PlaceBad(f, v, s) == Cl(\A k \in 1..Len(f.ser[s]) : Eq(f.ser[s][k][1] + f.ser[s][k][2] \div 2, (k - 1) * SC, 2), "bar_position")
EdgeBad(f, s) == Cl(\A k \in 1..Len(f.ser[s]) : k < Len(f.edges) /\ Eq(f.ser[s][k][1], f.edges[k], 2) /\
                                                 Eq(f.ser[s][k][2], f.edges[k + 1] - f.edges[k], 3), "bar_edges")
HatchBad(f, v, s) == Cl(\A k \in 1..Len(f.ser[s]) : k > Len(v) \/ f.ser[s][k][5] = HatchOf(f, v[k]), "hatch")
SerBad(f, v, P(_)) == IF f.nser # Len(f.H) THEN {"series"} ELSE UNION {BarBad(f, v, s) \cup P(s) : s \in 1..Len(f.H)}
\* ---- one dimensional tables
LegBad(f) == Cl(Len(f.leg) = Len(f.names) + (IF f.style = "bin" THEN f.sp + f.mi ELSE 0) /\ \A k \in 1..Len(f.names) : f.names[k] \in RangeOf(f.leg), "legend")
SamePts(q, e, t) == (\A k \in 1..Len(q) : \E j \in 1..Len(e) : Eq(q[k][1], e[j][1], 2) /\ Eq(q[k][2], e[j][2], t)) /\
                    (\A j \in 1..Len(e) : \E k \in 1..Len(q) : Eq(q[k][1], e[j][1], 2) /\ Eq(q[k][2], e[j][2], t))
Mid(f, k) == f.edges[k] + (f.edges[k + 1] - f.edges[k]) \div 2
BinStyle(f) ==
  LET v == Vis(f) IN
  SerBad(f, v, LAMBDA s : PlaceBad(f, v, s) \cup HatchBad(f, v, s)) \cup
  Cl(\A s \in 1..Len(f.M) : SamePts(f.pts[s], [k \in 1..Len(v) |-> <<(k - 1) * SC, f.M[s][v[k]]>>], 2), "points") \cup
  Cl(f.npts, "stray_points") \cup
  Cl(\A k \in 1..Len(f.join) : RangeOf(f.join[k]) = {(i - 1) * SC : i \in 1..NClean(f)}, "line_joins_other_rows") \cup
  Cl(NClean(f) < 2 \/ Len(f.join) = Len(f.M), "line") \cup
  Cl(f.lab = 0 \/ f.ticks = [k \in 1..Len(v) |-> f.labels[v[k]]], "bin_labels")
ActualStyle(f) ==
  LET v == Vis(f) IN
  IF Len(f.edges) # Len(v) + 1 THEN {"bins"} ELSE
  SerBad(f, v, LAMBDA s : EdgeBad(f, s)) \cup
  Cl(SamePts(f.pts[1], [k \in 1..Len(v) |-> <<Mid(f, k), f.M[1][v[k]]>>], 2), "points") \cup
  Cl(f.vert = SubSeq(f.edges, 2, Len(v)), "split_lines") \cup
  Cl(Len(f.flat) = Len(v) /\ \A k \in 1..Len(v) : \E l \in 1..Len(f.flat) :
       SamePts(f.flat[l], << <<f.edges[k], f.M[1][v[k]]>>, <<f.edges[k + 1], f.M[1][v[k]]>> >>, 2), "levels")
Table1(f) == (IF f.style = "bin" THEN BinStyle(f) ELSE ActualStyle(f)) \cup LegBad(f) \cup Cl(f.title = 1, "title")
\* ---- piecewise tables: bars on the actual scale and the fitted curve
PWFig(f) ==
  LET v == [i \in 1..(f.n - 1 - f.ns) |-> i] IN
  IF Len(f.edges) # Len(v) + 1 THEN {"bins"} ELSE
  SerBad(f, v, LAMBDA s : EdgeBad(f, s)) \cup Cl(f.vert = SubSeq(f.edges, 2, Len(v)), "split_lines") \cup
  Cl(Len(f.flat) = 1 /\ Len(f.flat[1]) = f.N /\
     \A k \in 1..Len(f.want) : \E j \in 1..f.N : Eq(f.flat[1][j][1], f.want[k][1], 2) /\ Eq(f.flat[1][j][2], f.want[k][2], 10), "curve") \cup
  Cl(f.title = 1, "title")
\* ---- monitoring: shares of the two samples and their metric
PsiFig(f) ==
  IF f.nser # 2 \/ \E s \in 1..2 : Len(f.ser[s]) # f.n THEN {"bars_of_series"} ELSE
  UNION {Cl(\A k \in 1..f.n : Eq(f.ser[s][k][4], 100 * Ratio(f.C[s][k], Sum(f.C[s])), 200) /\ Eq(f.ser[s][k][3], 0, 1), "bar_height") \cup
         Cl(\A k \in 1..f.n : Abs(f.ser[s][k][1] + f.ser[s][k][2] \div 2 - (k - 1) * SC) < SC \div 2, "bar_position") \cup
         Cl(SamePts(f.pts[s], [k \in 1..f.n |-> <<(k - 1) * SC, f.M[s][k]>>], 2), "points") : s \in 1..2}
\* ---- two dimensional tables
Cells(f, p) == {z \in (1..Len(f.T)) \X (1..Len(f.T[1])) : f.T[z[1]][z[2]] = p - 1}
StepsOk(q, want, t) == Len(q) = t + 1 /\ (\A k \in 1..(t + 1) : Eq(q[k][1], (k - 1) * SC - SC \div 2, 2)) /\ \A k \in 1..t : Eq(q[k][2], want[k], 2)
TwoFig(f) ==
  LET m == Len(f.T)  n == Len(f.T[1])
      rowv(i) == [j \in 1..n |-> f.M[f.T[i][j] + 1]]
      colv(j) == [i \in 1..m |-> f.M[f.T[i][j] + 1]] IN
  IF \E i \in 1..m, j \in 1..n : f.T[i][j] < 0 \/ f.T[i][j] >= f.n THEN {"cell_id"} ELSE
  Cl(\A p \in 1..f.n : Cells(f, p) # {}, "bin_not_shown") \cup
  Cl(\A i \in 1..m, j \in 1..n : Eq(f.img[i][j], f.M[f.T[i][j] + 1], 2), "cell_value") \cup
  Cl(\A p, q \in 1..f.n : (f.R[p][2] > f.R[q][1]) \/ \A a \in Cells(f, p), b \in Cells(f, q) : a[2] < b[2], "x_order") \cup
  Cl(\A p, q \in 1..f.n : (f.R[p][4] > f.R[q][3]) \/ \A a \in Cells(f, p), b \in Cells(f, q) : a[1] < b[1], "y_order") \cup
  Cl((\A i \in 1..m : \E l \in 1..Len(f.top) : StepsOk(f.top[l], rowv(i), n)) /\
     (\A l \in 1..Len(f.top) : \E i \in 1..m : StepsOk(f.top[l], rowv(i), n)), "x_trend_lines") \cup
  Cl((\A j \in 1..n : \E l \in 1..Len(f.rgt) : StepsOk(f.rgt[l], colv(j), m)) /\
     (\A l \in 1..Len(f.rgt) : \E j \in 1..n : StepsOk(f.rgt[l], colv(j), m)), "y_trend_lines")
\* ---- progress of a sketch
MeanTo(w, k) == LET s == [i \in 1..k |-> w[i][2]] IN Sum(s) \div k
ProgFig(f) ==
  Cl(\E l \in 1..Len(f.lines) : f.lines[l] = f.want, "progress_line") \cup
  Cl(\E l \in 1..Len(f.lines) : Len(f.lines[l]) = Len(f.want) /\
       \A k \in 1..Len(f.want) : f.lines[l][k][1] = f.want[k][1] /\ Eq(f.lines[l][k][2], MeanTo(f.want, k), 3), "moving_mean") \cup
  Cl(f.title = <<f.na, f.want[Len(f.want)][1]>>, "title") \cup Cl(f.div = 1 /\ f.xl = 1, "axis_labels")
FigBad(c, f) ==
  IF f.ok = 0 THEN {"figure_not_shown_or_saved"} ELSE
  CASE c.kind \in {"bin", "cont", "multi"} -> Table1(f) [] c.kind = "pw" -> PWFig(f) [] c.kind = "psi" -> PsiFig(f)
    [] c.kind = "d2" -> TwoFig(f) [] c.kind = "prog" -> ProgFig(f) [] OTHER -> {}
Failed(c) ==
  IF c.exc # "" THEN {"unexpected_error_" \o c.exc} ELSE
  UNION {FigBad(c, c.figs[k]) : k \in 1..Len(c.figs)} \cup
  Cl(c.kept = 1, "table_changed_by_plot")
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
