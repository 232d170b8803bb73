------------------------------- MODULE MC_Bin1D --------------------------------
\* Exhaustive exploration of small binning worlds: every sequence of N pre-bin
\* profiles, every trend, every option set.  Checked on the specification of the
\* problem itself: relations between trends, between a world and its mirror image
\* (order reversed, classes exchanged), between a problem and the problem with one
\* limit less, and what merging does to the divergence.  Every world is emitted
\* and replayed into the implementation (driver b1).
EXTENDS Bin1D, TLC, IOUtils, Json, CSV
CONSTANTS N, K        \* pre-bins, profiles

Prof == << <<6, 2>>, <<2, 6>>, <<4, 4>>, <<5, 0>>, <<3, 1>> >>
Trends == {"none", "ascending", "descending", "peak", "valley", "concave", "convex",
           "peak_heuristic", "valley_heuristic"}
AskTrends == Trends \cup {"auto", "auto_heuristic", "auto_asc_desc"}
Free == [minb |-> -1, maxb |-> -1, mins |-> -1, maxs |-> -1, mine |-> -1, maxe |-> -1, minne |-> -1, maxne |-> -1,
         diff |-> 0, z0sq |-> 0, polall |-> 0]
Opts == [none  |-> Free,
         minb  |-> [Free EXCEPT !.minb = 3],
         maxb  |-> [Free EXCEPT !.maxb = 2],
         mins  |-> [Free EXCEPT !.mins = 12],
         maxs  |-> [Free EXCEPT !.maxs = 17],
         mine  |-> [Free EXCEPT !.mine = 4],
         maxne |-> [Free EXCEPT !.maxne = 10],
         diff  |-> [Free EXCEPT !.diff = 200000],
         pvc   |-> [Free EXCEPT !.z0sq = 1642374],
         pva   |-> [Free EXCEPT !.z0sq = 1642374, !.polall = 1],
         both  |-> [Free EXCEPT !.minb = 2, !.maxs = 25, !.diff = 62500],
         gamma |-> Free,
         fixed |-> Free]
ON == DOMAIN Opts

VARIABLES w, stage      \* stage 1: the pre-bins are known; stage 2: the question too
vars == <<w, stage>>
World(p) == [i \in 1..N |-> Prof[p[i]]]
Init == stage = 0 /\ w = [p |-> <<>>, tr |-> "none", op |-> "none"]
Next == \/ /\ stage = 0 /\ stage' = 1
           /\ \E p \in [1..N -> 1..K] : w' = [w EXCEPT !.p = p]
        \/ /\ stage = 1 /\ stage' = 2
           /\ \E tr \in AskTrends, op \in ON :
                /\ w' = [w EXCEPT !.tr = tr, !.op = op]
                /\ IF "OUT" \in DOMAIN IOEnv
                   THEN CSVWrite("%1$s", <<ToJson([pb |-> World(w.p), tr |-> tr, op |-> op])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------- theorems of the problem
Cuts0 == [i \in 1..(N - 1) |-> <<i, i>>]
Kept(g) == Refine(g, Cuts0, FALSE)
PB(g) == LET cs == Kept(g) IN PreBins(g, [i \in 1..Len(cs) |-> cs[i][1]])
g0 == World(w.p)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
SwapC(s) == [i \in 1..Len(s) |-> <<s[i][2], s[i][1]>>]
\* the merging E of n pre-bins seen from the other end
RevE(E, n) == [i \in 1..Len(E) |-> IF i = Len(E) THEN n ELSE n - E[Len(E) - i]]
FeasSet(o, tr, pb) ==
  {E \in EndsTab[Len(pb)] : Feasible(o, tr, {}, pb, E, BinsOf(pb, E), -1)}
SomeTr == TrendFamily(w.tr)

\* refinement ends, leaves no pure pre-bin (unless nothing is left to cut), loses no record
RefineOK == stage = 1 =>
  LET pb == PB(g0)  n == Len(pb)  cs == Kept(g0) IN
  /\ n > 1 => \A i \in 1..n : ~IsPure(pb[i])
  /\ Tot2(pb) = Tot2(g0)
  /\ Refine(g0, cs, FALSE) = cs
\* cutting nothing satisfies every trend; every merging is a partition of the records
TrivialOK == stage = 1 =>
  LET pb == PB(g0)  n == Len(pb) IN
  /\ \A tr \in Trends : <<n>> \in FeasSet(Free, tr, pb)
  /\ \A E \in EndsTab[n] : Tot2(BinsOf(pb, E)) = Tot2(pb) /\ IsStrict(E)
\* a limit can only remove mergings, and does so whatever the trend
Monotone == stage = 2 =>
  LET pb == PB(g0)  F == FeasSet(Opts[w.op], "none", pb) IN
  \A tr \in SomeTr : FeasSet(Opts[w.op], tr, pb) = FeasSet(Free, tr, pb) \cap F
\* relations between the trends
Inclusion == stage = 2 /\ w.tr = "none" =>
  LET pb == PB(g0)
      F == [tr \in Trends |-> FeasSet(Opts[w.op], tr, pb)] IN
  /\ (F["ascending"] \cup F["descending"]) \subseteq (F["peak"] \cap F["valley"])
  /\ F["peak_heuristic"] \subseteq F["peak"]
  /\ F["valley_heuristic"] \subseteq F["valley"]
  /\ F["concave"] \subseteq F["peak"]
  /\ F["convex"] \subseteq F["valley"]
\* reading the bins from the other end
MirrorTr == [none |-> "none", ascending |-> "descending", descending |-> "ascending", peak |-> "peak",
             valley |-> "valley", concave |-> "concave", convex |-> "convex"]
Mirror == stage = 2 /\ w.tr \in DOMAIN MirrorTr =>
  LET pb == PB(g0)  n == Len(pb) IN
  {RevE(E, n) : E \in FeasSet(Opts[w.op], w.tr, pb)} = FeasSet(Opts[w.op], MirrorTr[w.tr], Rev(pb))
\* exchanging the classes (limits on events and non-events exchange their roles)
SwapO(o) == [o EXCEPT !.mine = o.minne, !.minne = o.mine, !.maxe = o.maxne, !.maxne = o.maxe]
SwapTr == [none |-> "none", ascending |-> "descending", descending |-> "ascending", peak |-> "valley",
           valley |-> "peak", concave |-> "convex", convex |-> "concave",
           peak_heuristic |-> "valley_heuristic", valley_heuristic |-> "peak_heuristic"]
Exchange == stage = 2 /\ w.tr \in DOMAIN SwapTr =>
  LET pb == PB(g0) IN
  FeasSet(Opts[w.op], w.tr, pb) = FeasSet(SwapO(Opts[w.op]), SwapTr[w.tr], SwapC(pb))
\* merging two bins never increases a divergence; the divergence does not
\* depend on which class is called the event
DataProcessing == stage = 1 =>
  LET pb == PB(g0)  n == Len(pb)  T == Tot2(pb) IN
  n > 1 =>
  \A d \in {"iv", "js", "hellinger", "triangular"} :
    LET V == [E \in EndsTab[n] |-> DivSum(d, BinsOf(pb, E), T)] IN
    \A E \in EndsTab[n] :
      /\ V[E] >= -60
      /\ Near(DivSum(d, SwapC(BinsOf(pb, E)), <<T[2], T[1]>>), V[E], 60)
      /\ \A k \in 1..(Len(E) - 1) : V[[i \in 1..(Len(E) - 1) |-> IF i < k THEN E[i] ELSE E[i + 1]]] <= V[E] + 60
================================================================================
