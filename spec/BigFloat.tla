------------------------------ MODULE BigFloat -----------------------------
(* BigFloatDef with its three basic operators replaced by a Java class       *)
(* (java/BigFloat.java) when TLC finds it; BigFloatMC checks that the class  *)
(* computes what is defined here.                                            *)
EXTENDS BigFloatDef
Mul(x, y) == DefMul(x, y)
Add(x, y) == DefAdd(x, y)
CmpAbs(x, y) == DefCmpAbs(x, y)

Neg(x) == <<-x[1], x[2], x[3]>>
Abs(x) == IF x[1] < 0 THEN Neg(x) ELSE x

Sub(x, y) == Add(x, Neg(y))
Less(x, y) == Sub(x, y)[1] < 0
LeqAbs(x, y) == CmpAbs(x, y) <= 0

Ten(k) == \* 10^k
  LET r == k % 4 q == (k - r) \div 4 IN <<1, <<IF r = 0 THEN 1 ELSE IF r = 1 THEN 10 ELSE IF r = 2 THEN 100 ELSE 1000>>, q>>
\* |x - y| <= 10^-d * |y|
Near(x, y, d) == LeqAbs(Sub(x, y), Mul(Ten(-d), y))
\* |x - y| <= 10^-d * s
NearAt(x, y, d, s) == LeqAbs(Sub(x, y), Mul(Ten(-d), s))

RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN One ELSE LET h == Pow(x, n \div 2) q == Mul(h, h) IN IF n % 2 = 1 THEN Mul(q, x) ELSE q

\* complex numbers <<re, im>>
CAdd(x, y) == <<Add(x[1], y[1]), Add(x[2], y[2])>>
CSub(x, y) == <<Sub(x[1], y[1]), Sub(x[2], y[2])>>
CMul(x, y) == <<Sub(Mul(x[1], y[1]), Mul(x[2], y[2])), Add(Mul(x[1], y[2]), Mul(x[2], y[1]))>>
CNorm(x) == Add(Mul(x[1], x[1]), Mul(x[2], x[2]))
COne == <<One, Zero>>
RECURSIVE CPow(_, _)
CPow(x, n) == IF n = 0 THEN COne ELSE LET h == CPow(x, n \div 2) q == CMul(h, h) IN IF n % 2 = 1 THEN CMul(q, x) ELSE q

\* polynomials: sequences of coefficients, constant term first
PMul(p, q) == [k \in 1 .. Len(p) + Len(q) - 1 |->
   LET lo == IF k > Len(q) THEN k - Len(q) + 1 ELSE 1 hi == IF k < Len(p) THEN k ELSE Len(p)
       RECURSIVE S(_, _)
       S(i, t) == IF i > hi THEN t ELSE S(i + 1, Add(t, Mul(p[i], q[k - i + 1])))
   IN S(lo, Zero)]
=============================================================================
