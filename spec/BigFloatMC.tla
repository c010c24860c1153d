----------------------------- MODULE BigFloatMC ----------------------------
(* BigFloat agrees with the integers wherever both are exact.                *)
EXTENDS BigFloat
CONSTANTS Vals                \* naturals; also taken with a minus sign
VARIABLES x, y, z
V == Vals \cup {-v : v \in Vals}
Init == x \in V /\ y \in V /\ z \in V
Next == UNCHANGED <<x, y, z>>
Spec == Init /\ [][Next]_<<x, y, z>>
F(i) == FromInt(i)
Eq(u, v) == Sub(u, v) = Zero
Exact == /\ Eq(Add(F(x), F(y)), F(x + y))
         /\ Eq(Sub(F(x), F(y)), F(x - y))
         /\ Less(F(x), F(y)) = (x < y)
         /\ Eq(Add(Mul(F(x), F(y)), F(z)), Add(F(z), Mul(F(y), F(x))))
Ring == /\ Eq(Mul(F(x), Add(F(y), F(z))), Add(Mul(F(x), F(y)), Mul(F(x), F(z))))
        /\ Eq(Mul(Mul(F(x), F(y)), F(z)), Mul(F(x), Mul(F(y), F(z))))
Squares == (x < 40000 /\ -x < 40000) => Eq(Mul(F(x), F(x)), F(x * x))
RECURSIVE IntTen(_)
IntTen(n) == IF n = 0 THEN 1 ELSE 10 * IntTen(n - 1)
Powers == \A n \in 0 .. 4 : Near(Pow(F(x), n + 1), Mul(F(x), Pow(F(x), n)), 22) /\ Eq(Mul(Ten(n), Ten(-n)), One) /\ (n < 8 => Eq(Ten(n), F(IntTen(n))))
Close == Near(F(x), F(x), 20) /\ (x # y => ~Near(F(x), F(y), 12))
Cut == LET big == Mul(Pow(F(z), 9), Pow(F(x), 9)) IN (x # 0 /\ z # 0) => Near(Mul(Ten(-7), Mul(Ten(7), big)), big, 22) /\ NearAt(Sub(Add(big, F(y)), F(y)), big, 20, Add(Abs(big), Abs(F(y))))
\* the Java class computes what BigFloatDef defines, also when digits are cut
Mixed(u) == Mul(Ten(u % 7), Mul(Pow(F(u), 3), Add(F(u), Ten(-(u % 11)))))
Override == LET u == Mixed(x) v == Mixed(y) w == Sub(Mixed(z), Mul(u, Ten(-9))) IN
  /\ Mul(u, v) = DefMul(u, v) /\ Mul(v, w) = DefMul(v, w)
  /\ Add(u, v) = DefAdd(u, v) /\ Add(w, u) = DefAdd(w, u) /\ Sub(u, w) = DefAdd(u, Neg(w))
  /\ CmpAbs(u, v) = DefCmpAbs(u, v) /\ CmpAbs(u, w) = DefCmpAbs(u, w) /\ CmpAbs(u, u) = 0
=============================================================================
