----------------------------- MODULE Elementary ------------------------------
(* The elementary functions the library exports for constant expressions.    *)
(* Arguments are sixteenths of integers.  Where the result is a dyadic       *)
(* number it is an integer of 1/64 and has to be exact; otherwise it is a    *)
(* 28-digit number from the series, or the function undoes another one.      *)
EXTENDS BigFloat
F(i) == FromInt(i)

\* ---- reciprocals, by Newton's iteration
RECURSIVE Newton(_, _, _)
Newton(y, g, k) == IF k = 0 THEN g ELSE Newton(y, Mul(g, Sub(F(2), Mul(y, g))), k - 1)
Inv(x) ==
  LET n == Len(x[2]) y == <<1, x[2], -n>>                    \* 10^-4 <= y < 1
      g == Newton(y, F(10000 \div (x[2][n] + 1)), 8)
  IN <<x[1] * g[1], g[2], g[3] - x[3] - n>>
Div(x, y) == Mul(x, Inv(y))
Over(x, k) == Div(x, F(k))

\* ---- series (for arguments up to about 8)
N == 60
RECURSIVE ExpFrom(_, _, _)
ExpFrom(x, k, s) == IF k = 0 THEN s ELSE ExpFrom(x, k - 1, Add(One, Over(Mul(x, s), k)))
Exp(x) == IF x[1] < 0 THEN Inv(ExpFrom(Neg(x), N, One)) ELSE ExpFrom(x, N, One)   \* no cancellation
RECURSIVE AltFrom(_, _, _, _)
AltFrom(q, k, o, s) == IF k = 0 THEN s ELSE AltFrom(q, k - 1, o, Sub(One, Over(Mul(q, s), (2 * k - 1 + o) * (2 * k + o))))
Sin(x) == Mul(x, AltFrom(Mul(x, x), N \div 2, 1, One))
Cos(x) == AltFrom(Mul(x, x), N \div 2, 0, One)
Sinh(x) == Over(Sub(Exp(x), Exp(Neg(x))), 2)
Cosh(x) == Over(Add(Exp(x), Exp(Neg(x))), 2)
\* arctangent of 1/m
RECURSIVE AtanFrom(_, _, _)
AtanFrom(q, k, s) == IF k < 0 THEN s ELSE AtanFrom(q, k - 1, Sub(Inv(F(2 * k + 1)), Mul(q, s)))
Atan1(m) == LET i == Inv(F(m)) IN Mul(i, AtanFrom(Mul(i, i), 22, Zero))
Pi == Sub(Mul(F(16), Atan1(5)), Mul(F(4), Atan1(239)))
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN One ELSE Mul(F(n), Fact(n - 1))

\* ---- exact functions on sixteenths (a, b), in sixteenths
S(a) == IF a < 0 THEN -1 ELSE 1
M(a) == IF a < 0 THEN -a ELSE a
Floor(a) == (a \div 16) * 16
Ceil(a) == -Floor(-a)
Trunc(a) == S(a) * Floor(M(a))
Round(a) == S(a) * Floor(M(a) + 8)                           \* halves away from zero
Fmod(a, b) == S(a) * (M(a) % M(b))
CopySign(a, b) == M(a) * S(b)
Least(a, b) == IF b < a THEN b ELSE a
Greatest(a, b) == IF a < b THEN b ELSE a
RECURSIVE IntPow(_, _)
IntPow(a, n) == IF n = 0 THEN 1 ELSE a * IntPow(a, n - 1)

\* ---- rows: what is computed, from what
X(a) == Over(F(a), 16)
Expect(op, a, b) ==                                          \* exact result in sixteenths
  CASE op = "floor" -> Floor(a)
    [] op = "ceil" -> Ceil(a)
    [] op = "trunc" -> Trunc(a)
    [] op = "round" -> Round(a)
    [] op = "abs" -> M(a)
    [] op = "fmod" -> Fmod(a, b)
    [] op = "copysign" -> CopySign(a, b)
    [] op = "signbit" -> IF a < 0 THEN 16 ELSE 0
    [] op = "min" -> Least(a, b)
    [] op = "max" -> Greatest(a, b)
    [] op = "minat" -> IF b < a THEN 32 ELSE 16              \* which of its arguments it returns
    [] op = "maxat" -> IF a < b THEN 32 ELSE 16
    [] op = "sqrt" -> 16 * a                                 \* of a * a
    [] op = "pow" -> 16 * IntPow(a, b)                       \* of whole numbers
    [] op = "log2" -> 16 * a                                 \* of 2^a
    [] op = "log10" -> 16 * a                                \* of 10^a
    [] op = "tgamma" -> 16 * Fact(a - 1)[2][1]               \* of small whole numbers
    [] op \in {"exp0", "cos0", "cosh0", "signbit.nz", "ceil.tiny"} -> 16
    [] op \in {"copysign.nz", "floor.tiny"} -> -16            \* of 1 and -0; of a tiny negative number
    [] op \in {"abs.nz", "round.half", "round.odd", "trunc.tiny"} -> 0   \* sign of |-0|; just below 1/2; of the largest odd number, less it
    [] op \in {"sin0", "tan0", "log1", "asin0", "atan0", "sinh0", "tanh0", "erf0", "expm10", "log1p0", "acos1"} -> 0
\* at tiny arguments: f(x) = x (1 + c1 x + .. + c5 x^5) to 21 digits for |x| <= 2^-12
Near0 == [ expm1_ |-> << <<1, 2>>, <<1, 6>>, <<1, 24>>, <<1, 120>>, <<1, 720>> >>,
           log1p_ |-> << <<-1, 2>>, <<1, 3>>, <<-1, 4>>, <<1, 5>>, <<-1, 6>> >>,
           sinh_ |-> << <<0, 1>>, <<1, 6>>, <<0, 1>>, <<1, 120>>, <<0, 1>> >>,
           asinh_ |-> << <<0, 1>>, <<-1, 6>>, <<0, 1>>, <<3, 40>>, <<0, 1>> >>,
           tanh_ |-> << <<0, 1>>, <<-1, 3>>, <<0, 1>>, <<2, 15>>, <<0, 1>> >>,
           atanh_ |-> << <<0, 1>>, <<1, 3>>, <<0, 1>>, <<1, 5>>, <<0, 1>> >>,
           sin_ |-> << <<0, 1>>, <<-1, 6>>, <<0, 1>>, <<1, 120>>, <<0, 1>> >>,
           asin_ |-> << <<0, 1>>, <<1, 6>>, <<0, 1>>, <<3, 40>>, <<0, 1>> >>,
           tan_ |-> << <<0, 1>>, <<1, 3>>, <<0, 1>>, <<2, 15>>, <<0, 1>> >>,
           atan_ |-> << <<0, 1>>, <<-1, 3>>, <<0, 1>>, <<1, 5>>, <<0, 1>> >> ]
Tiny(a, b) == Mul(F(a), Inv(Pow(F(2), b)))
RECURSIVE SmallFrom(_, _, _, _)
SmallFrom(c, x, k, s) == IF k = 0 THEN s ELSE SmallFrom(c, x, k - 1, Add(s, Mul(Over(F(c[k][1]), c[k][2]), Pow(x, k))))
Small(c, x) == Mul(x, SmallFrom(c, x, 5, One))

\* inexact results
Value(op, a, b) ==
  CASE op = "exp" -> Exp(X(a))
    [] op = "expm1" -> Sub(Exp(X(a)), One)
    [] op = "sin" -> Sin(X(a))
    [] op = "cos" -> Cos(X(a))
    [] op = "tan" -> Div(Sin(X(a)), Cos(X(a)))
    [] op = "sinh" -> Sinh(X(a))
    [] op = "cosh" -> Cosh(X(a))
    [] op = "tanh" -> Div(Sinh(X(a)), Cosh(X(a)))
    [] op = "gamma" -> Fact(a - 1)
    [] op = "gammahalf" -> Mul(Pi, Mul(Fact(2 * a), Mul(Fact(2 * a), Inv(Mul(Pow(F(16), a), Mul(Fact(a), Fact(a)))))))   \* square of gamma(a + 1/2)
    [] op \in {"log.exp", "log1p.expm1", "asin.sin", "acos.cos", "atan.tan", "asinh.sinh", "acosh.cosh", "atanh.tanh",
               "atan2", "log2.exp", "log10.exp", "pow.root"} -> X(a)
    [] op = "lgamma.exp" -> Fact(a - 1)
    [] op \in DOMAIN Near0 -> Small(Near0[op], Tiny(a, b))
Inexact == {"exp", "expm1", "sin", "cos", "tan", "sinh", "cosh", "tanh", "gamma", "gammahalf", "log.exp", "log1p.expm1", "asin.sin",
            "acos.cos", "atan.tan", "asinh.sinh", "acosh.cosh", "atanh.tanh", "atan2", "log2.exp", "log10.exp", "pow.root", "lgamma.exp"} \cup DOMAIN Near0

\* the rows: operation, arguments
NZ(lo, hi) == (lo .. hi) \ {0}
Rows(w) ==
  { <<op, a, 0>> : op \in {"floor", "ceil", "trunc", "round", "abs", "signbit"}, a \in NZ(-w, w) }
  \cup { <<op, a, b>> : op \in {"fmod", "copysign", "min", "max"}, a \in {-w, -17, -16, -3, 1, 8, 16, w}, b \in {-35, -16, -5, 1, 7, 16, w - 1} }
  \cup { <<op, a, b>> : op \in {"minat", "maxat"}, a \in {-3, 1, 16}, b \in {-3, 1, 16} }
  \cup { <<"sqrt", a, 0>> : a \in 0 .. 31 }
  \cup { <<"pow", a, b>> : a \in {-3, -2, 1, 2, 5, 10}, b \in 0 .. 5 }
  \cup { <<"log2", a, 0>> : a \in -9 .. 12 } \cup { <<"log10", a, 0>> : a \in 0 .. 6 } \cup { <<"tgamma", a, 0>> : a \in 1 .. 7 }
  \cup { <<op, 0, 0>> : op \in {"exp0", "cos0", "cosh0", "sin0", "tan0", "log1", "asin0", "atan0", "sinh0", "tanh0", "erf0", "expm10", "log1p0", "acos1"} }
  \cup { <<op, a, 0>> : op \in {"exp", "expm1", "sin", "tan", "sinh", "cosh", "tanh", "log.exp", "log1p.expm1", "asinh.sinh"}, a \in NZ(-w, w) \cap NZ(-60, 60) }
  \cup { <<"cos", a, 0>> : a \in NZ(-w, w) \cap NZ(-60, 60) }
  \cup { <<op, a, 0>> : op \in {"asin.sin", "atan.tan"}, a \in NZ(-22, 22) }
  \cup { <<"acos.cos", a, 0>> : a \in 4 .. 46 } \cup { <<"acosh.cosh", a, 0>> : a \in 8 .. 40 }
  \cup { <<"atanh.tanh", a, 0>> : a \in NZ(-24, 24) } \cup { <<"atan2", a, 0>> : a \in NZ(-48, 48) }
  \cup { <<op, a, 0>> : op \in {"log2.exp", "log10.exp"}, a \in NZ(-30, 30) } \cup { <<"pow.root", a, b>> : a \in {1, 3, 16, 40, 77}, b \in {2, 3, 5, 7} }
  \cup { <<"lgamma.exp", a, 0>> : a \in 2 .. 9 } \cup { <<"gamma", a, 0>> : a \in 8 .. 14 } \cup { <<"gammahalf", a, 0>> : a \in 0 .. 8 }
  \cup { <<op, 0, 0>> : op \in {"pi", "signbit.nz", "ceil.tiny", "copysign.nz", "floor.tiny", "abs.nz", "round.half", "round.odd", "trunc.tiny"} }
  \cup { <<op, a, b>> : op \in DOMAIN Near0, a \in {-3, -1, 1, 5}, b \in {15, 22, 31, 47, 60, 100} }

\* digits that a type's results are checked to
Digits(t, op) == CASE t = "f" -> 4 [] t = "d" -> 12 [] t = "e" -> 15
\* pi: within half a unit in the last place, and a trace of rounding
Ulp2(t) == CASE t = "f" -> Inv(Pow(F(2), 23)) [] t = "d" -> Inv(Pow(F(2), 52)) [] t = "e" -> Inv(Pow(F(2), 63))
Right(op, a, b, t, r) ==
  CASE op = "pi" -> LeqAbs(Sub(r, Pi), Ulp2(t))
    [] op \in Inexact -> Near(r, Value(op, a, b), Digits(t, op))
    [] op \in {"pow", "log2", "log10", "tgamma"} -> Near(Mul(r, F(16)), F(Expect(op, a, b)), Digits(t, op))
    [] OTHER -> LET e == Expect(op, a, b) IN Sub(Mul(r, F(16)), F(e)) = Zero
=============================================================================
