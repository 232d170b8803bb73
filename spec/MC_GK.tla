---------------------------------- MODULE MC_GK ----------------------------------
\* Exhaustive check of the summary: every insertion order over a few values and
\* every merge history of two summaries keeps the counts, brackets the ranks and
\* answers every quantile within eps * n.  Histories are emitted for replay.
EXTENDS GK, IOUtils, Json, CSV
CONSTANTS V, D
VARIABLES s, bag, hist          \* two summaries, ghost multisets (count per value)
vars == <<s, bag, hist>>
View == <<s, bag, Len(hist)>>
Init == s = <<EmptyGK, EmptyGK>> /\ bag = [i \in 1..2 |-> [v \in 1..V |-> 0]] /\ hist = <<>>
Add(i, v) == /\ s' = [s EXCEPT ![i] = GAdd(@, v)] /\ bag' = [bag EXCEPT ![i][v] = @ + 1]
             /\ hist' = Append(hist, <<i, v>>)
Merge(i, j) == /\ i # j /\ s' = [s EXCEPT ![i] = GMerge(s[i], s[j]), ![j] = IF s[i].n > 0 THEN Compress(@) ELSE @]
               /\ bag' = [bag EXCEPT ![i] = [v \in 1..V |-> bag[i][v] + bag[j][v]]]
               /\ hist' = Append(hist, <<i, 0>>)
Next == /\ Len(hist) < D
        /\ \/ \E i \in 1..2, v \in 1..V : Add(i, v)
           \/ \E i, j \in 1..2 : Merge(i, j)
        /\ IF Len(hist') = D /\ hist'[D][2] = 0 /\ "OUT" \in DOMAIN IOEnv
           THEN CSVWrite("%1$s", <<ToJson([hist |-> hist', inv_eps |-> E, nv |-> V])>>, IOEnv.OUT) ELSE TRUE
Spec == Init /\ [][Next]_vars
N(i) == LET F[v \in 0..V] == IF v = 0 THEN 0 ELSE F[v - 1] + bag[i][v] IN F[V]
Le(i, x) == LET F[v \in 0..V] == IF v = 0 THEN 0 ELSE F[v - 1] + (IF v <= x THEN bag[i][v] ELSE 0) IN F[V]
SumG(e) == LET F[k \in 0..Len(e)] == IF k = 0 THEN 0 ELSE F[k - 1] + e[k][2] IN F
Conserved == \A i \in 1..2 : s[i].n = N(i) /\ SumG(s[i].ent)[Len(s[i].ent)] + Len(s[i].inc) = N(i)
Sorted == \A i \in 1..2 : \A k \in 1..(Len(s[i].ent) - 1) : s[i].ent[k][1] <= s[i].ent[k + 1][1]
Known == \A i \in 1..2 : \A k \in 1..Len(s[i].ent) : s[i].ent[k][2] >= 1 /\ s[i].ent[k][3] >= 0 /\ bag[i][s[i].ent[k][1]] > 0
\* an occurrence of the entry's value has a rank between rmin and rmax
Bracket == \A i \in 1..2 : s[i].inc # <<>> \/
  LET e == s[i].ent  F == SumG(e) IN
  \A k \in 1..Len(e) : /\ Le(i, e[k][1]) >= F[k]
                       /\ Le(i, e[k][1] - 1) + 1 <= F[k] + e[k][3]
Q == 8
Accurate == \A i \in 1..2 : s[i].n = 0 \/ \A q \in 0..Q :
  LET v == Quantile(s[i], q, Q)  lo == Le(i, v - 1) + 1  hi == Le(i, v)  r == (q * (N(i) - 1)) \div Q + 1
      dist == IF r < lo THEN lo - r ELSE IF r > hi THEN r - hi ELSE 0
  IN bag[i][v] > 0 /\ dist * E <= N(i)
Monotone == \A i \in 1..2 : s[i].n = 0 \/ \A q \in 1..Q : Quantile(s[i], q - 1, Q) <= Quantile(s[i], q, Q)
==================================================================================
