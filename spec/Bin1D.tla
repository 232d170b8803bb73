--------------------------------- MODULE Bin1D ---------------------------------
\* The one-dimensional binning problem for a binary target, from the observable
\* side: candidate splits cut the clean records into pre-bins; pure pre-bins are
\* refined away; a set of cuts (a "merging" of consecutive pre-bins) is chosen
\* that satisfies every requested constraint and maximises the divergence.
\*
\* A pre-bin / bin is a pair <<ne, e>> (non-events, events).
EXTENDS Num

\* ------------------------------------------------------------- merging space
\* Ends(n): all increasing sequences of last-pre-bin indices, ending in n.
RECURSIVE EndsSeq(_, _)
EndsSeq(S, n) == IF S = {} THEN <<n>>
                 ELSE LET m == SetMin(S) IN <<m>> \o EndsSeq(S \ {m}, n)
MaxPB == 9
EndsTab == [n \in 1..MaxPB |-> {EndsSeq(S, n) : S \in SUBSET (1..(n - 1))}]

Zero2 == <<0, 0>>
Add2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
RECURSIVE Acc2(_, _, _)
Acc2(pb, a, b) == IF a > b THEN Zero2 ELSE Add2(pb[b], Acc2(pb, a, b - 1))
BinsOf(pb, ends) ==
  [k \in 1..Len(ends) |-> Acc2(pb, IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k])]
RECURSIVE Tot2(_)
Tot2(s) == Acc2(s, 1, Len(s))

\* --------------------------------------------------- routing and refinement
\* g = counts of the distinct clean values in increasing order; a split is given
\* by the number of distinct values strictly below it, so the intervals it
\* creates are closed on the left and open on the right.
PreBins(g, cuts) ==
  [k \in 1..(Len(cuts) + 1) |->
     Acc2(g, IF k = 1 THEN 1 ELSE cuts[k - 1] + 1,
             IF k = Len(cuts) + 1 THEN Len(g) ELSE cuts[k])]
IsPure(b) == b[1] = 0 \/ b[2] = 0
\* which pre-bins may not stay: pure ones, or only the empty ones (soft) for the
\* divergences that are defined for pure bins
Drop(b, soft) == IF soft THEN b[1] + b[2] = 0 ELSE IsPure(b)
\* one refinement step: such a pre-bin loses its right split (the last one its left split)
RefineMask(pb, soft) ==
  LET n == Len(pb) IN
  [i \in 1..(n - 1) |-> Drop(pb[i], soft) \/ (i = n - 1 /\ Drop(pb[n], soft))]
RECURSIVE SelectIdx(_, _, _)
SelectIdx(s, mask, i) ==     \* elements of s whose mask is FALSE
  IF i > Len(s) THEN <<>>
  ELSE (IF mask[i] THEN <<>> ELSE <<s[i]>>) \o SelectIdx(s, mask, i + 1)
\* splits carried through refinement: sequence of records' cut ranks with their
\* position in the original candidate list: <<rank, pos>>
RECURSIVE Refine(_, _, _)
Refine(g, cs, soft) ==
  IF Len(cs) = 0 THEN cs
  ELSE LET pb == PreBins(g, [i \in 1..Len(cs) |-> cs[i][1]])
       IN  IF \E i \in 1..Len(pb) : Drop(pb[i], soft)
           THEN Refine(g, SelectIdx(cs, RefineMask(pb, soft), 1), soft)
           ELSE cs
RefinedAway(cs0, cs1) == {cs0[i][2] : i \in 1..Len(cs0)} \ {cs1[i][2] : i \in 1..Len(cs1)}

\* ------------------------------------------------------------ divergence
DivIV(ne, e, Tn, Te) ==
  IF ne = 0 \/ e = 0 THEN 0
  ELSE MulM(Ratio(e, Te) - Ratio(ne, Tn), (Ln(e) - Ln(Te)) - (Ln(ne) - Ln(Tn)))
\* p = e/Te, q = ne/Tn ; p + q = (e*Tn + ne*Te) / (Te*Tn)
DivJS(ne, e, Tn, Te) ==
  LET m == Ln(e * Tn + ne * Te) IN
  IF e + ne = 0 THEN 0 ELSE
  (( IF e = 0 THEN 0 ELSE MulM(Ratio(e, Te), Ln(2) + Ln(e) + Ln(Tn) - m))
   + (IF ne = 0 THEN 0 ELSE MulM(Ratio(ne, Tn), Ln(2) + Ln(ne) + Ln(Te) - m))) \div 2
DivHel(ne, e, Tn, Te) ==
  LET d == SqrtM(Ratio(e, Te)) - SqrtM(Ratio(ne, Tn)) IN MulM(d, d) \div 2
DivTri(ne, e, Tn, Te) ==
  LET p == Ratio(e, Te)  q == Ratio(ne, Tn) IN
  IF p + q = 0 THEN 0 ELSE LET d == Abs(p - q) IN MulM(d, DivM(d, p + q))
Div(name, b, T) ==
  CASE name = "iv"         -> DivIV(b[1], b[2], T[1], T[2])
    [] name = "js"         -> DivJS(b[1], b[2], T[1], T[2])
    [] name = "hellinger"  -> DivHel(b[1], b[2], T[1], T[2])
    [] name = "triangular" -> DivTri(b[1], b[2], T[1], T[2])
RECURSIVE DivTo(_, _, _, _)
DivTo(name, bins, T, k) == IF k = 0 THEN 0 ELSE Div(name, bins[k], T) + DivTo(name, bins, T, k - 1)
DivSum(name, bins, T) == DivTo(name, bins, T, Len(bins))
Size(b) == b[1] + b[2]
SizeSpread(bins) == LET s == [i \in 1..Len(bins) |-> Size(bins[i])] IN MaxSeq(s) - MinSeq(s)
\* objective in micro; gamma in milli
Obj(name, bins, T, gamma) ==
  DivSum(name, bins, T) - IF gamma = 0 THEN 0 ELSE MulM(Ratio(SizeSpread(bins), Size(T)), gamma * 1000)

\* ------------------------------------------------------------ constraints
Rate(b) == Ratio(b[2], Size(b))
\* exact comparisons of rates
RateLe(a, b) == a[2] * Size(b) <= b[2] * Size(a)
RateEq(a, b) == a[2] * Size(b) = b[2] * Size(a)
\* band = +1: must clearly satisfy ("surely feasible"), -1: may satisfy ("not clearly infeasible")
AscOK(bins)  == \A i \in 1..(Len(bins) - 1) : RateLe(bins[i], bins[i + 1])
DescOK(bins) == \A i \in 1..(Len(bins) - 1) : RateLe(bins[i + 1], bins[i])
PeakOK(bins) == \E t \in 1..Len(bins) :
  (\A i \in 1..(t - 1) : RateLe(bins[i], bins[i + 1])) /\ (\A i \in t..(Len(bins) - 1) : RateLe(bins[i + 1], bins[i]))
ValleyOK(bins) == \E t \in 1..Len(bins) :
  (\A i \in 1..(t - 1) : RateLe(bins[i + 1], bins[i])) /\ (\A i \in t..(Len(bins) - 1) : RateLe(bins[i], bins[i + 1]))
\* concavity/convexity over every triple of bins, as the documentation's formulation does
CurvTol == 50
ConcaveOK(bins, band) == LET r == [i \in 1..Len(bins) |-> Rate(bins[i])] IN
  \A i, j, k \in 1..Len(bins) : (i < j /\ j < k) => 2 * r[j] - r[i] - r[k] >= band * CurvTol
ConvexOK(bins, band) == LET r == [i \in 1..Len(bins) |-> Rate(bins[i])] IN
  \A i, j, k \in 1..Len(bins) : (i < j /\ j < k) => r[i] + r[k] - 2 * r[j] >= band * CurvTol
\* heuristic trends: ends, tc = index (1-based) of the pre-bin with extreme rate (first one)
GroupAsc(bins, I)  == \A i, j \in I : i < j => RateLe(bins[i], bins[j])
GroupDesc(bins, I) == \A i, j \in I : i < j => RateLe(bins[j], bins[i])
ArgMaxRate(pb) == CHOOSE i \in 1..Len(pb) :
  (\A j \in 1..Len(pb) : RateLe(pb[j], pb[i])) /\ (\A j \in 1..(i - 1) : ~RateEq(pb[j], pb[i]))
ArgMinRate(pb) == CHOOSE i \in 1..Len(pb) :
  (\A j \in 1..Len(pb) : RateLe(pb[i], pb[j])) /\ (\A j \in 1..(i - 1) : ~RateEq(pb[j], pb[i]))
TrendOK(tr, pb, ends, bins, band) ==
  CASE tr = "none"       -> TRUE
    [] tr = "ascending"  -> AscOK(bins)
    [] tr = "descending" -> DescOK(bins)
    [] tr = "peak"       -> PeakOK(bins)
    [] tr = "valley"     -> ValleyOK(bins)
    [] tr = "concave"    -> ConcaveOK(bins, band)
    [] tr = "convex"     -> ConvexOK(bins, band)
    [] tr = "peak_heuristic" ->
         LET t == ArgMaxRate(pb) IN
         /\ GroupAsc(bins, {k \in 1..Len(ends) : ends[k] < t})
         /\ GroupDesc(bins, {k \in 1..Len(ends) : ends[k] >= t})
    [] tr = "valley_heuristic" ->
         LET t == ArgMinRate(pb) IN
         /\ GroupDesc(bins, {k \in 1..Len(ends) : ends[k] < t})
         /\ GroupAsc(bins, {k \in 1..Len(ends) : ends[k] >= t})
\* what the trend option promises about the bins alone
ShapeOK(tr, bins) ==
  CASE tr = "none"       -> TRUE
    [] tr = "ascending"  -> AscOK(bins)
    [] tr = "descending" -> DescOK(bins)
    [] tr \in {"peak", "peak_heuristic"}     -> PeakOK(bins)
    [] tr \in {"valley", "valley_heuristic"} -> ValleyOK(bins)
    [] tr = "concave"    -> ConcaveOK(bins, -1)
    [] tr = "convex"     -> ConvexOK(bins, -1)
    [] tr \in {"auto", "auto_heuristic"} -> PeakOK(bins) \/ ValleyOK(bins)
    [] tr = "auto_asc_desc" -> AscOK(bins) \/ DescOK(bins)
TrendFamily(tr) ==
  CASE tr = "auto" -> {"ascending", "descending", "peak", "valley"}
    [] tr = "auto_heuristic" -> {"ascending", "descending", "peak_heuristic", "valley_heuristic"}
    [] tr = "auto_asc_desc" -> {"ascending", "descending"}
    [] OTHER -> {tr}

\* two-proportion z test, z0sq = squared critical value in micro (0: no test)
ZOk(a, b, z0sq, band) ==
  LET n1 == Size(a)  n2 == Size(b)  nn == n1 + n2  ev == a[2] + b[2]
      d  == Abs(Ratio(a[2], n1) - Ratio(b[2], n2))
      stat == MulM(MulM(d, d), Ratio(n1 * n2, nn))
      vv == IF nn = 0 THEN 0 ELSE MulM(Ratio(ev, nn), Ratio(nn - ev, nn))
      crit == MulM(z0sq, vv)
  IN  IF n1 = 0 \/ n2 = 0 \/ vv = 0 THEN band < 0
      ELSE stat >= crit + band * (crit \div 150 + 12)
DiffOk(a, b, diff, band) ==
  IF Size(a) = 0 \/ Size(b) = 0 THEN band < 0
  ELSE Abs(Rate(a) - Rate(b)) >= diff + band * 4

\* o: option record with the effective integer limits (-1: not set)
NumOK(o, ends, bins) ==
  LET k == Len(bins) IN
  /\ (o.minb >= 0 => k >= o.minb)
  /\ (o.maxb >= 0 => k <= o.maxb)
  /\ \A i \in 1..k :
       /\ (o.mins >= 0 => Size(bins[i]) >= o.mins)
       /\ (o.maxs >= 0 => Size(bins[i]) <= o.maxs)
       /\ (o.mine >= 0 => bins[i][2] >= o.mine)
       /\ (o.maxe >= 0 => bins[i][2] <= o.maxe)
       /\ (o.minne >= 0 => bins[i][1] >= o.minne)
       /\ (o.maxne >= 0 => bins[i][1] <= o.maxne)
SepOK(o, bins, band) ==
  LET k == Len(bins) IN
  /\ (o.diff > 0 => \A i \in 1..(k - 1) : DiffOk(bins[i], bins[i + 1], o.diff, band))
  /\ (o.z0sq > 0 =>
        IF o.polall = 1
        THEN \A i, j \in 1..k : i < j => ZOk(bins[i], bins[j], o.z0sq, band)
        ELSE \A i \in 1..(k - 1) : ZOk(bins[i], bins[i + 1], o.z0sq, band))
\* With a monotone trend and no limits, a split whose neighbouring pre-bins already
\* break the trend is never kept, even when the user fixed it (the documented
\* outcome is INFEASIBLE): LocalOK holds of the merging without such splits.
OnlyTrend(o, gamma) ==
  /\ o.minb < 0 /\ o.maxb < 0 /\ o.mins < 0 /\ o.maxs < 0 /\ o.mine < 0 /\ o.maxe < 0
  /\ o.minne < 0 /\ o.maxne < 0 /\ o.diff = 0 /\ o.z0sq = 0 /\ gamma = 0
BreaksAsc(pb, e) == \E i \in 1..e : ~RateLe(pb[i], pb[i + 1]) /\ ~RateLe(Acc2(pb, i, e), pb[e + 1])
BreaksDesc(pb, e) == \E i \in 1..e : ~RateLe(pb[i + 1], pb[i]) /\ ~RateLe(pb[e + 1], Acc2(pb, i, e))
LocalOK(tr, pb, ends) ==
  \A k \in 1..(Len(ends) - 1) :
    /\ tr = "ascending" => ~BreaksAsc(pb, ends[k])
    /\ tr = "descending" => ~BreaksDesc(pb, ends[k])
FixedOK(fixed, ends) == fixed \subseteq {ends[i] : i \in 1..Len(ends)}
Feasible(o, tr, fixed, pb, ends, bins, band) ==
  /\ NumOK(o, ends, bins)
  /\ FixedOK(fixed, ends)
  /\ SepOK(o, bins, band)
  /\ TrendOK(tr, pb, ends, bins, band)
================================================================================
