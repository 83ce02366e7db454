-------------------------------- MODULE Fixed --------------------------------
(* Fixed-point arithmetic, unit 1/100000, on TLC's 32-bit integers (magnitudes below about 20000).
   Every operation is accurate to a few units; the specifications built on it state their own tolerances. *)
EXTENDS LinAlg

U == 100000
Tdiv(a, b) == IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b))   \* truncating
\* product of non-negative fixed-point numbers
MulP(a, b) == LET ah == a \div U  al == a % U  bh == b \div U  bl == b % U
              IN  ah * bh * U + ah * bl + al * bh + ((al \div 1000) * bl) \div 100 + ((al % 1000) * bl) \div U
Mul(a, b) == IF (a < 0) = (b < 0) THEN MulP(Abs(a), Abs(b)) ELSE -MulP(Abs(a), Abs(b))
\* x * p / q for plain integers 0 <= p <= 10^6, q = 10^6
Ppm(x, p) == LET y == Abs(x)
                 r == (y \div 1000000) * p + (((y \div 1000) % 1000) * p) \div 1000 + ((y % 1000) * p) \div 1000000
             IN  IF x < 0 THEN -r ELSE r
\* quotient, digit by digit
RECURSIVE DivD(_, _, _, _)
DivD(q, r, b, k) == IF k = 0 THEN q ELSE DivD(q * 10 + (r * 10) \div b, (r * 10) % b, b, k - 1)
DivP(a, b) == IF b <= 200000000 THEN DivD(a \div b, a % b, b, 5) ELSE DivD((a \div 10) \div (b \div 10), (a \div 10) % (b \div 10), b \div 10, 5)
Div(a, b) == IF (a < 0) = (b < 0) THEN DivP(Abs(a), Abs(b)) ELSE -DivP(Abs(a), Abs(b))

\* square root by bisection; v below 20000
RECURSIVE SqrtB(_, _, _)
SqrtB(v, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF MulP(m, m) <= v THEN SqrtB(v, m, hi) ELSE SqrtB(v, lo, m - 1)
Sqrt(v) == IF v <= 0 THEN 0 ELSE SqrtB(v, 0, Min2(14400000, 400 * U))

FDot(a, b) == Sum([i \in 1..Len(a) |-> Mul(a[i], b[i])])
RECURSIVE MaxAbsTo(_, _)
MaxAbsTo(v, k) == IF k = 0 THEN 0 ELSE Max2(Abs(v[k]), MaxAbsTo(v, k - 1))
MaxAbs(v) == MaxAbsTo(v, Len(v))
\* Euclidean norm, rescaled so that squares stay in range
Norm(v) == LET m == MaxAbs(v) IN
           IF m = 0 THEN 0
           ELSE IF m > 7000000 THEN 100 * Sqrt(LET w == [i \in 1..Len(v) |-> Tdiv(v[i], 100)] IN FDot(w, w))
           ELSE IF m < 50000 THEN Tdiv(Sqrt(LET w == [i \in 1..Len(v) |-> 100 * v[i]] IN FDot(w, w)), 100)
           ELSE Sqrt(FDot(v, v))
FScale(k, v) == TLCEval([i \in 1..Len(v) |-> Mul(k, v[i])])

\* trigonometry: reduce to [-pi, pi], then Taylor
PI == 314159
TwoPI == 628319
RECURSIVE Reduce(_)
Reduce(a) == IF a > PI THEN Reduce(a - TwoPI * (1 + (a - PI) \div TwoPI)) ELSE IF a < -PI THEN Reduce(a + TwoPI * (1 + (-PI - a) \div TwoPI)) ELSE a
RECURSIVE SinT(_, _, _, _)
SinT(term, x2, k, acc) == IF k > 19 \/ term = 0 THEN acc ELSE LET nt == -Tdiv(Mul(term, x2), (k + 1) * (k + 2)) IN SinT(nt, x2, k + 2, acc + nt)
Sin(a) == LET r == Reduce(a) x2 == Mul(r, r) IN SinT(r, x2, 1, r)
Cos(a) == LET r == Reduce(a) x2 == Mul(r, r) IN SinT(U, x2, 0, U)
Cross(a, b) == <<Mul(a[2], b[3]) - Mul(a[3], b[2]), Mul(a[3], b[1]) - Mul(a[1], b[3]), Mul(a[1], b[2]) - Mul(a[2], b[1])>>
Near(a, b, tol) == Abs(a - b) <= tol
NearV(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= tol
=============================================================================
