---------------------------------- MODULE Num ----------------------------------
\* Fixed-point arithmetic for TLC's 32-bit integers.
\* A "micro" is an integer standing for value/10^6.  All operators below keep
\* every intermediate result inside 32 bits for the ranges stated.
EXTENDS Integers, Sequences, FiniteSets, TLC, LnTab

SC == 1000000

\* Sentinels used by the recorders for values that are not ordinary numbers.
NANV  == 2000000001       \* not a number
PINF  == 2000000002       \* +infinity
NINF  == -2000000002      \* -infinity
BIGV  == 2000000003       \* magnitude above 1999 (positive)
NBIGV == -2000000003      \* magnitude above 1999 (negative)
NONEV == 2000000004       \* absent value
IsOrd(x) == x < 2000000000 /\ x > -2000000000

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
Sum(s) == SumTo(s, Len(s))
RECURSIVE SumFrom(_, _, _)          \* s[a] + ... + s[b]
SumFrom(s, a, b) == IF a > b THEN 0 ELSE s[b] + SumFrom(s, a, b - 1)
RECURSIVE MaxTo(_, _)
MaxTo(s, k) == IF k = 1 THEN s[1] ELSE Max2(s[k], MaxTo(s, k - 1))
MaxSeq(s) == MaxTo(s, Len(s))
RECURSIVE MinTo(_, _)
MinTo(s, k) == IF k = 1 THEN s[1] ELSE Min2(s[k], MinTo(s, k - 1))
MinSeq(s) == MinTo(s, Len(s))
Map(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
RECURSIVE SumOverSet(_, _)
SumOverSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE z \in S : TRUE IN f[x] + SumOverSet(f, S \ {x})
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
RangeOf(s) == {s[i] : i \in 1..Len(s)}

\* a/b as micro, rounded to nearest; 0 <= a, 0 < b < 2*10^6, a/b < 2000
Ratio0(a, b) ==
  LET q1 == a \div b         r1 == a % b
      q2 == (r1 * 1000) \div b  r2 == (r1 * 1000) % b
      q3 == (r2 * 1000 + b \div 2) \div b
  IN  q1 * SC + q2 * 1000 + q3
Ratio(a, b) == IF a >= 0 THEN Ratio0(a, b) ELSE -Ratio0(-a, b)

\* product of two micros, rounded down in magnitude; |x| * |y| < 2000 * SC * SC
MulM0(x, y) ==
  LET xh == x \div 1000  xl == x % 1000
      yh == y \div 1000  yl == y % 1000
  IN  xh * yh + (xh * yl) \div 1000 + (xl * yh) \div 1000
        + (((xh * yl) % 1000) + ((xl * yh) % 1000) + (xl * yl) \div 1000 + 500) \div 1000
MulM(x, y) == LET m == MulM0(Abs(x), Abs(y))
              IN IF (x < 0) = (y < 0) THEN m ELSE -m

\* quotient of two micros as micro: x / y, 0 < y < 2*10^9 ; |x/y| < 2000
\* (long division, three digits at a time, safe for y < 2*10^6; larger y are scaled)
RECURSIVE DivM(_, _)
DivM(x, y) ==
  IF x < 0 THEN -DivM(-x, y)
  ELSE IF y >= 2000000 THEN DivM(x \div 10, y \div 10)
  ELSE Ratio0(x, y)

\* natural logarithm of a positive integer, in micro (|error| < 10^-6)
RECURSIVE LnUp(_, _)
LnUp(n, k) == IF n >= 1024 THEN LnTab[n - 1023] - k * 6931472
              ELSE LnUp(2 * n, k + 1)
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE LnK(_, _)                 \* least k with n \div 2^k < 2048
LnK(n, k) == IF n < 2048 THEN k ELSE LnK(n \div 2, k + 1)
LnDown(n) ==
  LET k == LnK(n, 0)   p == Pow2(k)  m == n \div p   r == n % p
      lo == LnTab[m - 1023]   hi == LnTab[m - 1022]
      \* (hi - lo) < 9766; r/p < 1
      fr == IF p <= 131072 THEN ((hi - lo) * r) \div p
            ELSE ((hi - lo) * (r \div 1024)) \div (p \div 1024)
  IN  lo + fr + k * 6931472
\* ln(2) * 10^7 = 6931471.806: correct the accumulated rounding (0.194 per doubling)
Ln(n) == IF n < 1024 THEN (LnUp(n, 0) + 5) \div 10
         ELSE (LnDown(n) + 5) \div 10

\* square root of a non-negative micro, as micro
RECURSIVE ISqrtIt(_, _)
ISqrtIt(v, g) == LET h == (g + v \div g) \div 2 IN IF h >= g THEN g ELSE ISqrtIt(v, h)
ISqrt(v) == IF v = 0 THEN 0 ELSE ISqrtIt(v, Min2(v, 46340))
\* v micro = r^2: sqrt(v/10^6) = ISqrt(v)/10^3; refine with the remainder
SqrtM(v) ==
  IF v = 0 THEN 0
  ELSE IF v < 2000 THEN ISqrt(v * SC)      \* exact integer sqrt of v*10^6: v*10^6 < 2*10^9
  ELSE LET r == ISqrt(v)  d == v - r * r
           a == (d * 1000) \div (2 * r)                 \* first order
           b == (((d * d) \div (8 * r)) * 1000) \div (r * r)     \* second order
       IN  r * 1000 + a - b

\* e^-y as micro for a micro y >= -1.5: halve until below 1/2, series, square back
RECURSIVE ExpSer(_, _, _, _)
ExpSer(f, t, k, acc) == IF k > 10 \/ t = 0 THEN acc
                        ELSE LET u == MulM(t, f) IN
                             LET v == IF u < 0 THEN -((-u) \div k) ELSE u \div k IN ExpSer(f, v, k + 1, acc + v)
RECURSIVE ExpM(_)                  \* e^y for y <= 1.5, zero below e^-15
ExpM(y) == IF y < -15 * SC THEN 0
           ELSE IF y < -500000 \/ y > 500000 THEN LET h == ExpM(y \div 2) IN MulM(h, h)
           ELSE ExpSer(y, SC, 1, SC)

Near(x, y, tol) == IF IsOrd(x) /\ IsOrd(y) THEN Abs(x - y) <= tol ELSE x = y
\* relative+absolute tolerance: tol + |y| * ppm / 10^6
NearR(x, y, tol, ppm) ==
  IF IsOrd(x) /\ IsOrd(y)
  THEN Abs(x - y) <= tol + MulM(Abs(y), ppm)
  ELSE x = y

\* compare rationals a/b and c/d exactly (products below 2^31)
RatLe(a, b, c, d) == a * d <= c * b
RatLt(a, b, c, d) == a * d < c * b

\* The binning quality score: the IV against its ideal value 0.3957 (best there, lower on both
\* sides), times the confidence of every consecutive test, times the homogeneity 1 - HHI.
RECURSIVE ProdConf(_, _)
ProdConf(ps, k) == IF k = 0 THEN SC ELSE MulM(ProdConf(ps, k - 1), SC - ps[k])
QScore(iv, ps, hhin) ==
  LET x == DivM(iv, 395739)
      s1 == IF x > 7 * SC THEN 0 ELSE MulM(x, ExpM((SC - MulM(x, x)) \div 2))
  IN MulM(MulM(s1, ProdConf(ps, Len(ps))), SC - hhin)
\* for a continuous target: the normalised sum of absolute WoEs instead of the IV
CQScore(rw, ps, hhin) ==
  LET s1 == IF rw <= SC THEN 0 ELSE SC - DivM(SC, rw)
  IN MulM(MulM(s1, ProdConf(ps, Len(ps))), SC - hhin)
AllOrdS(ps) == \A i \in 1..Len(ps) : IsOrd(ps[i])

IsSorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
IsStrict(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Cl(cond, name) == IF cond THEN {} ELSE {name}     \* clause: name is reported when cond fails
================================================================================
