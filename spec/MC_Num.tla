--------------------------------- MODULE MC_Num --------------------------------
\* Exhaustive sanity of the arithmetic the other modules rest on.
EXTENDS Num
VARIABLES a, b
Init == a \in 1..60 /\ b \in 1..60
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
LnMul == Abs(Ln(a * b) - Ln(a) - Ln(b)) <= 2
LnBig == Abs(Ln(a * b * 1000 + 17) - Ln(a * b * 1000 + 16)) <= 1000000 \div (a * b * 1000) + 2
LnBig2 == Abs(Ln(a * a * b * b) - 2 * Ln(a) - 2 * Ln(b)) <= 4
LnOne == Ln(1) = 0 /\ Abs(Ln(2) - 693147) <= 1 /\ Abs(Ln(10) - 2302585) <= 1 /\ Abs(Ln(1000000007) - 20723266) <= 2
RatioOk == LET r == Ratio(a, b) IN Abs(r * b - a * SC) <= b
RatioMul == Abs(MulM(Ratio(a, b), Ratio(b, a)) - SC) <= a \div b + b \div a + 2
DivOk == Abs(DivM(Ratio(a, 7), Ratio(b, 7)) - Ratio(a, b)) <= (8 * a) \div b + 8
SqrtOk == LET s == SqrtM(Ratio(a, b)) IN Abs(MulM(s, s) - Ratio(a, b)) <= 4 + s \div 200000
NegOk == MulM(-a * 1000, b * 1000) = -(a * b)
Inv == LnMul /\ LnBig /\ LnBig2 /\ LnOne /\ RatioOk /\ RatioMul /\ DivOk /\ SqrtOk /\ NegOk
================================================================================
