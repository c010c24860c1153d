------------------------------- MODULE Designs -----------------------------
(* Digital filters designed from analog prototypes.  Coefficient lists of    *)
(* digital filters count powers of 1/z upwards, i.e. powers of z downwards.  *)
EXTENDS Families
TR == INSTANCE Transfer                         \* Gaussian integer polynomials, highest power first

---- \* the bilinear image of a prototype with Gaussian integer roots at w = P/Q
\* s = (Q/P) (z-1)/(z+1) for lowpass, s = (P/Q) (z+1)/(z-1) for highpass; factor of a root r, times Q or P
RootFactor(kind, r, p, q) ==
  IF kind = "low" THEN <<<<q - p * r[1], -p * r[2]>>, <<-q - p * r[1], -p * r[2]>>>>       \* Q (z-1) - P r (z+1)
  ELSE <<<<p - q * r[1], -q * r[2]>>, <<p + q * r[1], q * r[2]>>>>                           \* P (z+1) - Q r (z-1)
MissingFactor(kind, p, q) == IF kind = "low" THEN <<<<p, 0>>, <<p, 0>>>> ELSE <<<<q, 0>>, <<-q, 0>>>>
RECURSIVE FactorProd(_)
FactorProd(fs) == IF fs = <<>> THEN <<<<1, 0>>>> ELSE TR!CConv(FactorProd(Tail(fs)), Head(fs))
ImageDen(kind, ps, p, q) == FactorProd([i \in 1 .. Len(ps) |-> RootFactor(kind, ps[i], p, q)])
ImageNum(kind, zs, n, k, p, q) ==
  LET c == FactorProd([i \in 1 .. n |-> IF i <= Len(zs) THEN RootFactor(kind, zs[i], p, q) ELSE MissingFactor(kind, p, q)])
  IN [i \in 1 .. Len(c) |-> <<k * c[i][1], k * c[i][2]>>]

---- \* digital filters: sequences of stages <<b, a>> of BigFloat coefficients
RECURSIVE StageProd(_, _, _)
StageProd(c, i, which) == IF i = 0 THEN <<One>> ELSE PMul(StageProd(c, i - 1, which), c[i][which])
Whole(c, which) == StageProd(c, Len(c), which)
RECURSIVE SumAbs(_, _)
SumAbs(p, i) == IF i = 0 THEN Zero ELSE Add(SumAbs(p, i - 1), Abs(p[i]))
\* coefficient lists agree up to padding with zeros at the end (odd orders in section form)
At(p, i) == IF i <= Len(p) THEN p[i] ELSE Zero
SamePoly(p, q, d, scale) == \A i \in 1 .. (IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) : NearAt(At(p, i), At(q, i), d, scale)

\* times f at the expected integers e
IsImage(c, which, lead, e, d) ==
  LET w == Whole(c, which) ex == [i \in 1 .. Len(e) |-> F(e[i][1])] IN
  SamePoly([i \in 1 .. Len(w) |-> Mul(F(lead), w[i])], ex, d, SumAbs(ex, Len(ex)))

---- \* frequency response, at the point z = (v + ju)/(v - ju) of the unit circle, i.e. tan(omega/2) = u/v
RECURSIVE EvalAt(_, _, _, _, _)
EvalAt(p, up, um, k, acc) ==
  IF k > Len(p) THEN acc
  ELSE EvalAt(p, up, um, k + 1, CAdd(acc, CScale(p[k], CMul(CPow(um, k - 1), CPow(up, Len(p) - k)))))
PointMag(p, u, v) == CNorm(EvalAt(p, <<F(v), F(u)>>, <<F(v), F(-u)>>, 1, <<Zero, Zero>>))
RECURSIVE StageMag(_, _, _, _, _)
StageMag(c, i, which, u, v) == IF i = 0 THEN One ELSE Mul(StageMag(c, i - 1, which, u, v), PointMag(c[i][which], u, v))
\* |B|^2 den = |A|^2 num, up to a relative error of 10^-d
HasMag(c, u, v, m, d) == Near(Mul(StageMag(c, Len(c), 1, u, v), m[2]), Mul(StageMag(c, Len(c), 2, u, v), m[1]), d)

\* gain at z = 1 (sg = 1) or z = -1 (sg = -1), squared and with its sign
RECURSIVE ValAt(_, _, _, _)
ValAt(p, sg, i, acc) == IF i > Len(p) THEN acc ELSE ValAt(p, sg, i + 1, IF sg = -1 /\ i % 2 = 0 THEN Sub(acc, p[i]) ELSE Add(acc, p[i]))
RECURSIVE StageVal(_, _, _, _)
StageVal(c, i, which, sg) == IF i = 0 THEN One ELSE Mul(StageVal(c, i - 1, which, sg), ValAt(c[i][which], sg, 1, Zero))
HasGain(c, sg, m, d) ==
  LET b == StageVal(c, Len(c), 1, sg) a == StageVal(c, Len(c), 2, sg) IN
  /\ b[1] = a[1] /\ Near(Mul(Mul(b, b), m[2]), Mul(Mul(a, a), m[1]), d)

\* all poles strictly inside the unit circle (Schur-Cohn, without division)
RECURSIVE Stable(_)
Stable(a) ==
  LET n == Len(a) - 1 IN
  IF n = 0 THEN a[1][1] # 0
  ELSE /\ CmpAbs(a[n + 1], a[1]) < 0
       /\ Stable([k \in 1 .. n |-> Sub(Mul(a[1], a[k]), Mul(a[n + 1], a[n + 2 - k]))])
StagesStable(c) == \A i \in 1 .. Len(c) : Stable(c[i][2])
=============================================================================
