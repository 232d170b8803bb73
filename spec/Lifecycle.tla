-------------------------------- MODULE Lifecycle -------------------------------
\* Life cycle of an object with fit and query calls.  The abstract state is the set of
\* histories the object may answer for; <<>> stands for "not fitted, every query is refused".
EXTENDS Num, TLC
NoFit == <<>>
Unknown == {<<0>>}               \* a call that had to fail went through: nothing is claimed
\* key of the data an object answers for after a successful fit with sample w
FitKey(K, w, acc) == IF acc = 0 THEN {<<w>>} ELSE {Append(k, w) : k \in K}
\* after a failing fit the object is refused, or still answers for what it was fitted with
FailKey(K, acc) == IF K = {NoFit} THEN (IF acc = 0 THEN {NoFit} ELSE Unknown) ELSE IF acc = 0 THEN K \cup {NoFit} ELSE Unknown
Step(K, op, failed, acc) ==
  IF K = Unknown THEN (IF op = "C" THEN {NoFit} ELSE IF op \in {"A", "B", "P", "F"} /\ acc = 0 /\ ~failed THEN FitKey(K, IF op = "B" THEN 2 ELSE 1, acc) ELSE K)
  ELSE CASE op \in {"A", "P", "F"} -> IF failed THEN FailKey(K, acc) ELSE FitKey(K, 1, acc)
         [] op = "B" -> IF failed THEN FailKey(K, acc) ELSE FitKey(K, 2, acc)
         [] op = "X" -> IF failed THEN FailKey(K, acc) ELSE Unknown
         [] op = "C" -> IF failed THEN K ELSE {NoFit}
         [] op \in {"S", "D", "J"} -> K
================================================================================
