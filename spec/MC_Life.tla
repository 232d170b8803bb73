--------------------------------- MODULE MC_Life --------------------------------
\* All short life cycles of two objects: the abstract machine keeps the two objects apart, an
\* object answers for at most two histories, and only a successful fit makes it answer at all.
EXTENDS Lifecycle, Json, IOUtils, CSV
CONSTANTS D, ACC
Ops == {"A", "B", "P", "F", "X", "S", "D", "C"}
VARIABLES K, hist, last
vars == <<K, hist, last>>
Init == K = [i \in 1..2 |-> {NoFit}] /\ hist = <<>> /\ last = <<{NoFit}, {NoFit}, 1, "", FALSE>>
\* after a failed fit observation may settle which of the two answers holds
Settle(S) == {S} \cup {{k} : k \in S}
Do(i, op, f) == /\ \E n \in Settle(Step(K[i], op, f, ACC)) : K' = [K EXCEPT ![i] = n]
                /\ hist' = Append(hist, <<i, op>>)
                /\ last' = <<K[1], K[2], i, op, f>>
Fails(op) == IF op = "X" THEN {TRUE} ELSE {FALSE}
Next == /\ Len(hist) < D
        /\ \E i \in 1..2 : \E op \in Ops : \E f \in Fails(op) : Do(i, op, f)
        /\ IF Len(hist') = D /\ "OUT" \in DOMAIN IOEnv /\ hist'[1][1] = 1
              /\ (\E j \in 1..D : hist'[j][2] \in {"A", "B", "P", "F"})
              /\ \A j \in 1..(D - 1) : hist'[j] # hist'[j + 1] \/ hist'[j][2] \in {"A", "B"}
           THEN CSVWrite("%1$s", <<ToJson([hist |-> hist'])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in 1..2 : K[i] # {} /\ Cardinality(K[i]) <= 2
\* the object that was not called keeps its answers
Separate == hist = <<>> \/ LET o == 3 - last[3] IN K[o] = last[o]
\* nothing but a successful fit turns a refused object into an answering one
OnlyFitAnswers == hist = <<>> \/ LET i == last[3] IN
                  last[i] # {NoFit} \/ K[i] = {NoFit} \/ last[4] \in {"A", "B", "P", "F", "X"}
\* after a successful fit the answers depend on the sample of that fit alone (batches accumulate)
FitForgets == hist = <<>> \/ ACC = 1 \/ last[4] \notin {"A", "B", "P", "F"} \/ last[5] \/
              K[last[3]] = {<<IF last[4] = "B" THEN 2 ELSE 1>>}
\* copies and files change nothing
CopyKeeps == hist = <<>> \/ last[4] \notin {"S", "D"} \/ K[last[3]] \subseteq last[last[3]]
CloneEmpty == hist = <<>> \/ last[4] # "C" \/ K[last[3]] = {NoFit}
Accumulates == hist = <<>> \/ ACC = 0 \/ last[4] # "B" \/ last[last[3]] = Unknown \/
               \A k \in K[last[3]] : k # <<>> /\ k[Len(k)] = 2
================================================================================
