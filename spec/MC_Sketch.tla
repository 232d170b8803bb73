------------------------------- MODULE MC_Sketch -------------------------------
\* Exhaustive exploration of the histories of two or three streaming sketches.
\* Checked on the abstract machine: conservation of records (against a ghost that
\* remembers which chunk went where), independence of cutting and order, merges
\* leave the other sketch alone.  Every history that ends in a solve is emitted
\* and replayed into the implementation (driver s1).
EXTENDS StreamSketch, TLC, IOUtils, Json, CSV
CONSTANTS NS, D
Kinds == {"mix", "miss", "spec", "event", "none"}
\* tokens of the model: clean, special, missing
Ch(k) == CASE k = "mix"   -> << <<1, 2>>, <<1, 0>>, <<0, 1>> >>
           [] k = "miss"  -> << <<0, 0>>, <<0, 0>>, <<2, 1>> >>
           [] k = "spec"  -> << <<0, 0>>, <<1, 1>>, <<0, 0>> >>
           [] k = "event" -> << <<0, 3>>, <<0, 0>>, <<0, 0>> >>
           [] OTHER       -> VZero(3)
VARIABLES st, hist, log     \* log[i]: kinds of chunks, in order, that reached sketch i
vars == <<st, hist, log>>
Init == st = StInit(NS, 3) /\ hist = <<>> /\ log = [i \in 1..NS |-> <<>>]
Add(i, k)   == /\ st' = DoAdd(st, i, Ch(k)) /\ log' = [log EXCEPT ![i] = Append(@, k)]
               /\ hist' = Append(hist, <<"add", i, k>>)
Merge(i, j) == /\ i # j /\ st' = DoMerge(st, i, j) /\ log' = [log EXCEPT ![i] = @ \o log[j]]
               /\ hist' = Append(hist, <<"merge", i, j>>)
Solve(i)    == /\ UNCHANGED <<st, log>> /\ hist' = Append(hist, <<"solve", i>>)
Next == /\ Len(hist) < D
        /\ \/ \E i \in 1..NS, k \in Kinds : Add(i, k)
           \/ \E i, j \in 1..NS : Merge(i, j)
           \/ \E i \in 1..NS : Solve(i)
        /\ IF Len(hist') = D /\ hist'[D][1] = "solve" /\ (\E q \in 1..D : hist'[q] = <<"add", hist'[D][2], "mix">>) /\ "OUT" \in DOMAIN IOEnv
           THEN CSVWrite("%1$s", <<ToJson([hist |-> hist', ns |-> NS])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars
RECURSIVE BagOf(_)
BagOf(l) == IF l = <<>> THEN VZero(3) ELSE VAdd(Ch(Head(l)), BagOf(Tail(l)))
Conserved == \A i \in 1..NS : st.bags[i] = BagOf(log[i]) /\ st.fed[i] = Len(log[i])
\* the order of the chunks is irrelevant
Rev(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
OrderFree == \A i \in 1..NS : BagOf(Rev(log[i])) = st.bags[i]
\* one chunk or two, before or after a merge
CutFree == \A i, j \in 1..NS, k \in Kinds : i # j =>
              /\ DoMerge(DoAdd(st, j, Ch(k)), i, j).bags[i] = DoAdd(DoMerge(st, i, j), i, Ch(k)).bags[i]
              /\ DoMerge(st, i, j).bags[j] = st.bags[j]
              /\ Counters(DoMerge(st, i, j).bags[i])[1] = Counters(st.bags[i])[1] + Counters(st.bags[j])[1]
================================================================================
