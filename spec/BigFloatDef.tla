---------------------------- MODULE BigFloatDef -----------------------------
(* Decimal floating-point numbers of about 28 digits, for specifications    *)
(* over the reals.  A number is <<sign, limbs, exponent>> with sign in       *)
(* {-1, 0, 1}, limbs the base-10^4 digits of the mantissa (least significant *)
(* first, the last one not 0) and value sign * mantissa * 10^(4 exponent).   *)
(* Sums and products are cut to K limbs: relative error below 10^-24.        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt
LOCAL B == 10000
K == 7
Zero == <<0, <<>>, 0>>

\* limbs from column sums (each below 2^31), carries propagated
RECURSIVE Carry(_, _, _, _)
Carry(cols, i, c, acc) ==
  IF i > Len(cols) THEN (IF c = 0 THEN acc ELSE Carry(cols, i, c \div B, Append(acc, c % B)))
  ELSE LET t == cols[i] + c IN Carry(cols, i + 1, t \div B, Append(acc, t % B))

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] = 0 THEN Strip(SubSeq(m, 1, Len(m) - 1)) ELSE m

Make(s, m0, e) ==
  LET m == Strip(m0) n == Len(m) IN
  IF n = 0 THEN Zero ELSE IF n > K THEN <<s, SubSeq(m, n - K + 1, n), e + n - K>> ELSE <<s, m, e>>

FromInt(x) == Make(IF x < 0 THEN -1 ELSE 1, Carry(<<>>, 1, IF x < 0 THEN -x ELSE x, <<>>), 0)
One == FromInt(1)

DefMul(x, y) ==
  IF x[1] = 0 \/ y[1] = 0 THEN Zero ELSE
  LET a == x[2] b == y[2] n == Len(a) m == Len(b)
      col(k) == LET lo == IF k > m THEN k - m + 1 ELSE 1 hi == IF k < n THEN k ELSE n
                    RECURSIVE S(_, _)
                    S(i, t) == IF i > hi THEN t ELSE S(i + 1, t + a[i] * b[k - i + 1])
                IN S(lo, 0)
  IN Make(x[1] * y[1], Carry([k \in 1 .. n + m - 1 |-> col(k)], 1, 0, <<>>), x[3] + y[3])

\* compare magnitudes of limb sequences with aligned columns lo .. hi of exponents
LOCAL Top(x) == x[3] + Len(x[2])                \* exponent after the most significant limb
LOCAL Limb(x, k) == LET i == k - x[3] IN IF i >= 1 /\ i <= Len(x[2]) THEN x[2][i] ELSE 0
RECURSIVE CmpFrom(_, _, _, _)
CmpFrom(x, y, k, lo) == IF k < lo THEN 0 ELSE LET d == Limb(x, k) - Limb(y, k) IN IF d # 0 THEN (IF d > 0 THEN 1 ELSE -1) ELSE CmpFrom(x, y, k - 1, lo)
LOCAL Min2(a, b) == IF a < b THEN a ELSE b
LOCAL Max2(a, b) == IF a > b THEN a ELSE b
DefCmpAbs(x, y) ==
  IF x[1] = 0 \/ y[1] = 0 THEN (IF x[1] = 0 THEN (IF y[1] = 0 THEN 0 ELSE -1) ELSE 1)
  ELSE IF Top(x) # Top(y) THEN (IF Top(x) > Top(y) THEN 1 ELSE -1)
  ELSE CmpFrom(x, y, Top(x), Min2(x[3], y[3]) + 1)

\* |x| + sy |y| for sy in {-1, 1}, |x| >= |y| when sy = -1; keeps K + 1 leading columns
AddAbs(x, y, sy, s) ==
  LET hi == Max2(Top(x), Top(y)) lo == Max2(Min2(x[3], y[3]), hi - K - 1)
      cols == [k \in 1 .. hi - lo |-> Limb(x, lo + k) + sy * Limb(y, lo + k)]
  IN Make(s, Carry(cols, 1, 0, <<>>), lo)

DefAdd(x, y) ==
  IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
  ELSE IF x[1] = y[1] THEN AddAbs(x, y, 1, x[1])
  ELSE LET c == DefCmpAbs(x, y) IN
       IF c = 0 THEN Zero ELSE IF c > 0 THEN AddAbs(x, y, -1, x[1]) ELSE AddAbs(y, x, -1, y[1])
=============================================================================
