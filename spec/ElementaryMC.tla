---------------------------- MODULE ElementaryMC -----------------------------
(* The definitions of Elementary obey the laws of the functions they define. *)
EXTENDS Elementary, Json, TLC
CONSTANTS Width, Emit
VARIABLES a, b
vars == <<a, b>>
W == -Width .. Width
Init == IF Emit THEN a = 0 /\ b = 0 ELSE a \in W /\ b \in W
Next == IF Emit THEN /\ a = 0 /\ a' = 1 /\ b' = 0
                     /\ \A r \in Rows(Width) : PrintT(ToJson(r))
        ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars
Same(x, y, s) == LeqAbs(Sub(x, y), Mul(Ten(-22), s))
Rounding ==
  /\ Floor(a) <= a /\ a < Floor(a) + 16 /\ Floor(a) % 16 = 0
  /\ Ceil(a) >= a /\ Ceil(a) < a + 16 /\ Ceil(a) % 16 = 0
  /\ M(Trunc(a)) <= M(a) /\ Trunc(a) \in {Floor(a), Ceil(a)}
  /\ Round(a) \in {Floor(a), Ceil(a)} /\ 2 * M(Round(a) - a) <= 16 /\ Round(-a) = -Round(a)
Remainder == b # 0 => LET r == Fmod(a, b) IN M(r) < M(b) /\ (r = 0 \/ S(r) = S(a)) /\ (a - r) % M(b) = 0
Choice == Least(a, b) + Greatest(a, b) = a + b /\ Least(a, b) <= Greatest(a, b) /\ M(CopySign(a, b)) = M(a)
Inverses == a # 0 => Same(Mul(X(a), Inv(X(a))), One, One)
Series ==                                                   \* at fewer points, further out
  (a % 5 = 0 /\ b % 8 = 0) =>
  LET x == X(3 * a) y == X(2 * b) z == X(3 * a + 2 * b) e == Exp(x) IN
  /\ Same(Mul(e, Exp(y)), Exp(z), Exp(z))
  /\ Same(Add(Mul(Sin(x), Sin(x)), Mul(Cos(x), Cos(x))), One, One)
  /\ Same(Add(Mul(Sin(x), Cos(y)), Mul(Cos(x), Sin(y))), Sin(z), One)
  /\ Same(Sub(Mul(Cosh(x), Cosh(x)), Mul(Sinh(x), Sinh(x))), One, Mul(Cosh(x), Cosh(x)))
\* pi: sine vanishes there, and it lies between 3.14 and 3.15
Circle == (a = 0 /\ b = 0) => /\ Same(Sin(Pi), Zero, One)
                              /\ Less(Over(F(314), 100), Pi) /\ Less(Pi, Over(F(315), 100))
=============================================================================
