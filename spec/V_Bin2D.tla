--------------------------------- MODULE V_Bin2D ---------------------------------
\* Executions of the two-dimensional binning.  The candidate splits of both
\* variables cut the clean records into a grid of cells; a set of rectangles of
\* cells that tiles the grid is chosen, every rectangle holding records (of both
\* classes, binary target) and respecting the limits, horizontally (vertically)
\* adjacent rectangles following the row (column) trend, with the largest total
\* divergence (binary) or deviation of the means (continuous).
EXTENDS Cont1D, Table1D, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
Prop  == IOEnv.PROP
LO == -1999999999
HI == 1999999999

\* ------------------------------------------------------------------ groups
\* a group is <<ne, e>> (binary) or the continuous group of Cont1D; B2 gives <<ne, e>>
B2(c, g) == IF c.cont = 1 THEN AsBin(g) ELSE g
NRec(c, g) == IF c.cont = 1 THEN g[7] ELSE g[1] + g[2]
Z(c) == IF c.cont = 1 THEN GZero ELSE Zero2
Plus(c, a, b) == IF c.cont = 1 THEN GAdd(a, b) ELSE Add2(a, b)
RECURSIVE SumG(_, _, _)
SumG(c, s, k) == IF k = 0 THEN Z(c) ELSE Plus(c, SumG(c, s, k - 1), s[k])
Part(c, P(_)) == SumG(c, [i \in 1..Len(c.pts) |-> IF P(c.pts[i]) THEN c.pts[i][3] ELSE Z(c)], Len(c.pts))
\* ------------------------------------------------- the ordered values of a variable
\* order of the ids: values increasing, or categories by increasing rate / mean
Marg(c, d, v) == LET P(q) == q[d] = v IN B2(c, Part(c, P))
RECURSIVE SortCats(_, _)
SortCats(m, S) ==
  IF S = {} THEN <<>>
  ELSE LET f == CHOOSE v \in S : \A w \in S : RateLe(m[v], m[w]) IN <<f>> \o SortCats(m, S \ {f})
Margs(c, d) == [v \in 1..c.D[d].k |-> Marg(c, d, v)]
OrderOf(c, d) == IF c.D[d].cat = 0 THEN [i \in 1..c.D[d].k |-> i] ELSE SortCats(Margs(c, d), 1..c.D[d].k)
Ambiguous(c, d) == c.D[d].cat = 1 /\ LET m == Margs(c, d) IN \E v, w \in 1..c.D[d].k : v < w /\ RateEq(m[v], m[w])
PosOf(c, d) == IF c.D[d].cat = 0 THEN c.D[d].vals ELSE [i \in 1..c.D[d].k |-> (i - 1) * c.D[d].u]
RawOf(c, d, ord) == [i \in 1..Len(ord) |-> Sum([j \in 1..Len(c.pts) |-> IF c.pts[j][d] = ord[i] THEN NRec(c, c.pts[j][3]) ELSE 0])]
CandOf(c, d) ==
  CASE c.method = "uniform"  -> UniformSplits(PosOf(c, d), c.D[d].nb)
    [] c.method = "quantile" -> QuantileSplits(PosOf(c, d), RawOf(c, d, OrderOf(c, d)), c.D[d].nb)
    [] OTHER -> c.D[d].cand
\* ----------------------------------------------------------- returned rectangles
NR(c) == Len(c.R)
\* does rectangle i hold value id v of variable d ?
Holds(c, i, d, v) ==
  LET s == c.R[i][d] IN
  IF c.D[d].cat = 1 THEN v \in RangeOf(s) ELSE s[1] <= c.D[d].vals[v] /\ c.D[d].vals[v] < s[2]
HoldsPos(c, i, d, q) ==      \* any position (numerical) or id (categorical)
  LET s == c.R[i][d] IN IF c.D[d].cat = 1 THEN q \in RangeOf(s) ELSE s[1] <= q /\ q < s[2]
Edges(c, d) == {c.R[i][d][1] : i \in 1..NR(c)} \cup {c.R[i][d][2] : i \in 1..NR(c)}
\* one point of every piece of the plane the edges can distinguish
Atoms(c, d) == IF c.D[d].cat = 1 THEN 1..c.D[d].k ELSE {LO} \cup (Edges(c, d) \ {HI})
TileF(c) ==
  Cl(\A i \in 1..NR(c), d \in 1..2 : c.D[d].cat = 1 \/ c.R[i][d][1] < c.R[i][d][2], "edges_increasing") \cup
  Cl(\A d \in 1..2 : c.D[d].cat = 0 \/ \A i \in 1..NR(c) : 0 \notin RangeOf(c.R[i][d]) /\ Len(c.R[i][d]) = Cardinality(RangeOf(c.R[i][d])), "categories_known") \cup
  Cl(\A a \in Atoms(c, 1), b \in Atoms(c, 2) :
       Cardinality({i \in 1..NR(c) : HoldsPos(c, i, 1, a) /\ HoldsPos(c, i, 2, b)}) = 1, "tiles_the_plane") \cup
  Cl(\A d \in 1..2 : c.D[d].cat = 1 \/ c.method = "mdlp" \/ Edges(c, d) \subseteq (RangeOf(CandOf(c, d)) \cup {LO, HI}), "edges_are_candidates") \cup
  Cl(\A d \in 1..2 : c.D[d].cat = 0 \/
       LET m == Margs(c, d) IN
       \A i \in 1..NR(c) : \A v, w \in RangeOf(c.R[i][d]) : \A q \in 1..c.D[d].k :
         (~RateLe(m[q], m[v]) /\ ~RateLe(m[w], m[q])) => q \in RangeOf(c.R[i][d]), "categories_consecutive")
\* ----------------------------------------------------------------- the table
InR(c, i, q) == Holds(c, i, 1, q[1]) /\ Holds(c, i, 2, q[2])
RectG(c, i) == LET P(q) == InR(c, i, q) IN Part(c, P)
ExpRows(c) == [i \in 1..(NR(c) + 2) |-> IF i <= NR(c) THEN RectG(c, i) ELSE IF i = NR(c) + 1 THEN c.sp ELSE c.miss]
CRowOk(r, g, T) ==
  Cl(r[1] = g[1] /\ r[2] = g[2], "row_count_and_sum") \cup
  Cl(Near(r[3], Ratio(g[1], T[1]), 2), "count_pct") \cup
  Cl(Near(r[4], RMean(g), 2), "mean") \cup
  (IF g[7] = 0 THEN {} ELSE
     Cl(IsOrd(r[5]) /\ Near(MulM(r[5], r[5]), Ratio(g[1] * g[3] - g[2] * g[2], g[1] * g[1]) \div 16, 60), "std")) \cup
  Cl(Near(r[6], RMean(g) - RMean(T), 3), "woe") \cup
  Cl(Near(r[7], MulM(Abs(RMean(g) - RMean(T)), Ratio(g[1], T[1])), 24), "iv")
CTableF(c, ex) ==
  LET n == Len(ex)  T == GTot(ex)
      sw == SumTo([i \in 1..n |-> Abs(RMean(ex[i]) - RMean(T))], n)
      si == SumTo([i \in 1..n |-> c.tab[i][7]], n)
      t == c.tot
  IN UNION {CRowOk(c.tab[i], ex[i], T) : i \in 1..n} \cup
     Cl(t[1] = T[1] /\ t[1] = c.n /\ t[2] = T[2] /\ t[3] = SC /\ Near(t[4], RMean(T), 2), "totals") \cup
     Cl(Near(t[6], sw, 8 + 3 * n) /\ Near(t[7], si, 4 + n), "totals_woe_iv")
BTableF(c, ex) ==
  LET n == Len(ex) IN
  Cl(\A i \in 1..n : <<c.tab[i][2], c.tab[i][3]>> = ex[i] /\ c.tab[i][1] = ex[i][1] + ex[i][2], "row_counts") \cup
  Cl(<<c.tot[2], c.tot[3]>> = Tot2(ex) /\ c.tot[1] = c.n, "totals") \cup
  C07Table(c.tab, c.tot, c.same)
TableF(c, ex) ==
  Cl(Len(c.tab) = Len(ex), "row_count") \cup Cl(c.same = 1, "digits_and_layout_do_not_change_values") \cup
  (IF Len(c.tab) # Len(ex) THEN {} ELSE IF c.cont = 1 THEN CTableF(c, ex) ELSE BTableF(c, ex))
\* ------------------------------------------------------------- transform
Empty(c, g) == NRec(c, g) = 0
TransRow2(c, t, r) ==
  LET hit == {i \in 1..NR(c) : HoldsPos(c, i, 1, r[2]) /\ HoldsPos(c, i, 2, r[3])}
      k == CASE r[1] = 0 -> IF hit = {} THEN 0 ELSE SetMin(hit)
             [] r[1] = 1 -> NR(c) + 1 [] r[1] = 2 -> NR(c) + 2 [] OTHER -> 0
      asked == (r[1] = 1 /\ t.ms = 1) \/ (r[1] = 2 /\ t.mm = 1)
      num == IF r[1] = 1 THEN t.msv ELSE t.mmv
      isint == IF r[1] = 1 THEN t.msi ELSE t.mmi
      v1 == IF c.cont = 1 THEN c.tab[k][4] ELSE c.tab[k][6]
      v2 == IF c.cont = 1 THEN c.tab[k][4] ELSE c.tab[k][5]
  IN IF k = 0 THEN Cl(r[6] = -1 /\ Len(r[7]) = 0, "unseen_category_in_no_bin")
     ELSE Cl(IF asked THEN r[4] = num /\ r[5] = num ELSE Near(r[4], v1, 1) /\ Near(r[5], v2, 1), "transform_value") \cup
          Cl(IF asked /\ isint = 1 THEN r[6] * SC = num ELSE r[6] = k - 1, "transform_indices") \cup
          Cl(k \in RangeOf(r[7]), "transform_label")
TransF(c) == LET t == c.probe[1] IN UNION {TransRow2(c, t, t.rows[i]) : i \in 1..Len(t.rows)}
\* ------------------------------------------------- the grid and its tilings
\* columns (rows) of the grid that hold records, as sets of value ids, left to right
ColIdx(c, d, i) == LET cd == CandOf(c, d)  p == PosOf(c, d)[i] IN 1 + Cardinality({j \in 1..Len(cd) : cd[j] <= p})
Cuts(c, d) ==
  LET ord == OrderOf(c, d)
      ix == [i \in 1..c.D[d].k |-> ColIdx(c, d, i)]
      used == {ix[i] : i \in 1..c.D[d].k}
      RECURSIVE L(_)
      L(S) == IF S = {} THEN <<>> ELSE LET m == SetMin(S) IN <<{ord[i] : i \in {i \in 1..c.D[d].k : ix[i] = m}}>> \o L(S \ {m})
  IN L(used)
Lim(c) == [minb |-> c.o.minb, maxb |-> c.o.maxb,
           mins |-> IF c.o.f_mins < 0 THEN -1 ELSE CeilDiv(c.o.f_mins * c.n, 64),
           maxs |-> IF c.o.f_maxs < 0 THEN -1 ELSE CeilDiv(c.o.f_maxs * c.n, 64),
           mine |-> c.o.mine, maxe |-> c.o.maxe, minne |-> c.o.minne, maxne |-> c.o.maxne]
RectOK(c, l, g) ==      \* g: group of a rectangle
  LET b == B2(c, g) IN
  /\ NRec(c, g) > 0 /\ (c.cont = 1 \/ ~IsPure(b))
  /\ (l.mins >= 0 => Size(b) >= l.mins) /\ (l.maxs >= 0 => Size(b) <= l.maxs)
  /\ (l.mine >= 0 => b[2] >= l.mine) /\ (l.maxe >= 0 => b[2] <= l.maxe)
  /\ (l.minne >= 0 => b[1] >= l.minne) /\ (l.maxne >= 0 => b[1] <= l.maxne)
\* a then b along an axis; band 1: surely, -1: possibly
StepOK(tr, diff, a, b, band) ==
  CASE tr = "none" -> TRUE
    [] tr = "ascending" ->
         IF diff = 0 THEN RateLe(a, b) /\ (band < 0 \/ ~RateLe(b, a)) ELSE Rate(b) - Rate(a) >= diff + band * 4
    [] OTHER ->
         IF diff = 0 THEN RateLe(b, a) /\ (band < 0 \/ ~RateLe(a, b)) ELSE Rate(a) - Rate(b) >= diff + band * 4
ObjOf(c, b, T, m) == IF c.cont = 1 THEN Abs(Rate(b) - m) ELSE Div(c.div, b, T)
\* best total of a tiling whose cells (row-major) up to the first 0 are assigned:
\* asg[cell] = rectangle index in the list of admissible rectangles, 0 if free
NONE == -1
RECURSIVE Best(_, _, _, _, _, _)
Best(G, asg, first, k, acc, dummy) ==
  IF first > G.m * G.n
  THEN IF G.minb >= 0 /\ k < G.minb THEN NONE ELSE acc
  ELSE IF asg[first] # 0 THEN Best(G, asg, first + 1, k, acc, 0)
  ELSE IF G.maxb >= 0 /\ k >= G.maxb THEN NONE
  ELSE SetMax({NONE} \cup
         {LET r == G.rect[x] IN
          IF \E q \in r.cells : asg[q] # 0 THEN NONE
          ELSE IF \E q \in r.left : asg[q] # 0 /\ ~StepOK(G.tx, G.dx, G.rect[asg[q]].b, r.b, 1) THEN NONE
          ELSE IF \E q \in r.right : asg[q] # 0 /\ ~StepOK(G.tx, G.dx, r.b, G.rect[asg[q]].b, 1) THEN NONE
          ELSE IF \E q \in r.up : asg[q] # 0 /\ ~StepOK(G.ty, G.dy, G.rect[asg[q]].b, r.b, 1) THEN NONE
          ELSE Best(G, [q \in 1..(G.m * G.n) |-> IF q \in r.cells THEN x ELSE asg[q]], first + 1, k + 1, acc + r.v, 0)
          : x \in G.at[first]})
\* the largest value over the tilings (NONE when there is no sure one)
BestTiling(c) ==
  LET xs == Cuts(c, 1)  ys == Cuts(c, 2)  n == Len(xs)  m == Len(ys)
      l == Lim(c)
      PAll(q) == TRUE
      T == B2(c, Part(c, PAll))
      mu == IF c.cont = 1 THEN Ratio(T[2], Size(T)) ELSE 0
      cell(i, j) == (i - 1) * n + j
      cg == [q \in 1..(m * n) |-> LET i == ((q - 1) \div n) + 1  j == ((q - 1) % n) + 1
                                      P(z) == z[1] \in xs[j] /\ z[2] \in ys[i] IN Part(c, P)]
      all == {<<a, b, d, e>> \in (1..m) \X (1..m) \X (1..n) \X (1..n) : a <= b /\ d <= e}
      cellsOf(q) == {cell(i, j) : i \in q[1]..q[2], j \in q[3]..q[4]}
      RECURSIVE GSum(_)
      GSum(S) == IF S = {} THEN Z(c) ELSE LET s == SetMin(S) IN Plus(c, cg[s], GSum(S \ {s}))
      grp == [q \in all |-> GSum(cellsOf(q))]
      ok == {q \in all : RectOK(c, l, grp[q])}
      mk(q) == LET b == B2(c, grp[q]) IN
               [cells |-> cellsOf(q), b |-> b, v |-> ObjOf(c, b, T, mu),
                left |-> IF q[3] = 1 THEN {} ELSE {cell(i, q[3] - 1) : i \in q[1]..q[2]},
                right |-> IF q[4] = n THEN {} ELSE {cell(i, q[4] + 1) : i \in q[1]..q[2]},
                up |-> IF q[1] = 1 THEN {} ELSE {cell(q[1] - 1, j) : j \in q[3]..q[4]}]
      num(q) == ((q[1] * 8 + q[2]) * 8 + q[3]) * 8 + q[4]
      ids == {num(q) : q \in ok}
      G == [m |-> m, n |-> n, minb |-> l.minb, maxb |-> l.maxb, tx |-> c.o.trend[1], ty |-> c.o.trend[2], dx |-> c.o.diff[1], dy |-> c.o.diff[2],
            rect |-> [x \in ids |-> mk(CHOOSE q \in ok : num(q) = x)],
            at |-> [p \in 1..(m * n) |-> {num(q) : q \in {q \in ok : cell(q[1], q[3]) = p}}]]
  IN Best(G, [q \in 1..(m * n) |-> 0], 1, 0, 0, 0)
Judged(c) == /\ c.strategy = "grid" /\ c.method # "mdlp"
             /\ \A d \in 1..2 : ~Ambiguous(c, d)
             /\ LET a == Len(Cuts(c, 1))  b == Len(Cuts(c, 2)) IN a * b <= 12 /\ a <= 5 /\ b <= 5
\* -------------------------------------------------- constraints of the result
\* columns touched by a rectangle, as indices of the grid
Span(c, i, d, cs) == {j \in 1..Len(cs) : \E v \in cs[j] : Holds(c, i, d, v)}
\* value ids in order and consecutive rectangles along them; works without the grid
AdjPairs(c, d) ==    \* ordered pairs of different rectangles adjacent along variable d
  LET o == 3 - d
      cs == Cuts(c, d)
      sp == [i \in 1..NR(c) |-> Span(c, i, d, cs)]
      ot == [i \in 1..NR(c) |-> {v \in 1..c.D[o].k : Holds(c, i, o, v)}]
  IN {p \in (1..NR(c)) \X (1..NR(c)) : p[1] # p[2] /\ sp[p[1]] # {} /\ sp[p[2]] # {} /\ ot[p[1]] \cap ot[p[2]] # {} /\
        SetMax(sp[p[1]]) + 1 = SetMin(sp[p[2]])}
Tight(c, d) == c.method # "mdlp" /\ ~Ambiguous(c, d)
LimitsF(c, ex) ==
  LET l == Lim(c) IN
  Cl(\A i \in 1..NR(c) : NRec(c, ex[i]) > 0 /\ (c.cont = 1 \/ ~IsPure(ex[i])), "bins_hold_records") \cup
  Cl((l.minb < 0 \/ NR(c) >= l.minb) /\ (l.maxb < 0 \/ NR(c) <= l.maxb), "number_of_bins") \cup
  Cl(\A i \in 1..NR(c) : RectOK(c, l, ex[i]), "bin_limits") \cup
  Cl(\A d \in 1..2 : c.o.trend[d] = "none" \/ ~Tight(c, d) \/ ~Tight(c, 3 - d) \/
       \A p \in AdjPairs(c, d) : StepOK(c.o.trend[d], c.o.diff[d], B2(c, ex[p[1]]), B2(c, ex[p[2]]), -1), "trend")
ObjMine(c, ex) ==
  LET PAll(q) == TRUE
      T == B2(c, Part(c, PAll))
      mu == IF c.cont = 1 THEN Ratio(T[2], Size(T)) ELSE 0
  IN Sum([i \in 1..NR(c) |-> ObjOf(c, B2(c, ex[i]), T, mu)])
OptimalF(c, ex) ==
  IF ~Judged(c) \/ c.gamma = 1 THEN {}
  ELSE LET v == BestTiling(c) IN Cl(v = NONE \/ ObjMine(c, ex) >= v - 120 - v \div 3000, "optimal")
\* ------------------------------------------------------------------ analysis
AnF(c, ex) ==
  IF Len(c.an) = 0 \/ c.an[1].done = 0 THEN {} ELSE
  LET an == c.an[1]  n == Len(ex)
      full == \A d \in 1..2 : Tight(c, d) /\ Len(Cuts(c, d)) = Len(CandOf(c, d)) + 1
      adj == AdjPairs(c, 1) \cup AdjPairs(c, 2)
      got == {<<an.tests[i][1] + 1, an.tests[i][2] + 1>> : i \in 1..Len(an.tests)}
      sym(S) == S \cup {<<p[2], p[1]>> : p \in S}
  IN (IF c.cont = 0 THEN C07An(c.tab, c.tot, NR(c), an)
      ELSE LET h == CHHI(ex) IN
           Cl(Near(an.iv, c.tot[7], 1) /\ Near(an.p_iv, an.iv, 1) /\ Near(an.woe, c.tot[6], 1) /\ Near(an.p_woe, an.woe, 1), "analysis_iv_woe") \cup
           Cl(Near(an.hhi, h, 4 + n) /\ Near(an.hhin, DivM(h - SC \div n, SC - SC \div n), 10 + 2 * n), "analysis_hhi") \cup
           CQual(an, GTot(ex), c.f1)) \cup
     Cl(~full \/ sym(got) = sym(adj), "tests_of_adjacent_bins") \cup
     (IF c.cont = 1 THEN UNION {TestVals(an.tests[i], ex[an.tests[i][1] + 1], ex[an.tests[i][2] + 1]) : i \in 1..Len(an.tests)} ELSE
        Cl(\A i \in 1..Len(an.tests) :
             LET r == an.tests[i]  a == ex[r[1] + 1]  b == ex[r[2] + 1] IN
             IF an.fisher = 1 THEN FisherOK(r, a, b) ELSE ChiTestOK(r, a, b), "test_values") \cup
        Quality(an, an.tests))
\* ------------------------------------------------------------------- verdict
Refusable(c) ==     \* no clean records, or (binary) a single class among them: nothing to bin
  LET PAll(q) == TRUE  T == Part(c, PAll) IN NRec(c, T) = 0 \/ (c.cont = 0 /\ IsPure(T))
C11F(c) ==
  Cl(c.qexc = "", "queries_run") \cup
  (IF c.qexc # "" THEN {} ELSE
   LET tf == TileF(c) IN
   IF tf # {} THEN tf ELSE
   LET ex == ExpRows(c)  bf == TableF(c, ex) IN
   IF bf # {} THEN bf
   ELSE TransF(c) \cup LimitsF(c, ex) \cup OptimalF(c, ex) \cup AnF(c, ex))
Failed(c) ==
  IF c.exc # "" THEN Cl(Refusable(c) /\ c.exc = "ValueError", "unexpected_error")
  ELSE IF c.status = "OPTIMAL" THEN C11F(c)
  ELSE Cl(c.status = "INFEASIBLE", "status_known") \cup
       Cl(~Judged(c) \/ Refusable(c) \/ BestTiling(c) = NONE, "infeasible_is_true")
VARIABLE pos
Init == pos = 0
Next == /\ pos < Len(Cases)
        /\ pos' = pos + 1
        /\ LET f == Failed(Cases[pos + 1]) IN
           IF f = {} THEN TRUE
           ELSE PrintT("FAIL " \o ToString(Cases[pos + 1].id) \o " " \o ToString(f))
Spec == Init /\ [][Next]_pos
================================================================================
