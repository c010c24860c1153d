----------------------------- MODULE DesignTrace ---------------------------
(* Validates logged prototypes and designs.  Numbers that are not finite are *)
(* logged as <<>> and fit nowhere.                                           *)
EXTENDS Designs, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Finite(c) == \A i \in 1 .. Len(c) : c[i] # <<>>
StagesFinite(c, sz) == \A s \in 1 .. Len(c) : \A h \in 1 .. 2 : Len(c[s][h]) = sz /\ Finite(c[s][h])
Form(e) == IF e.form = "poly" THEN Len(e.c) = 1 /\ StagesFinite(e.c, e.n + 1) ELSE Len(e.c) = (e.n + 1) \div 2 /\ StagesFinite(e.c, 3)
RipOK(e) == e.rn # 0 => Near(Pow(Add(e.D, One), 10 * e.rd), Ten(e.rn), 18)

Prototype(e) ==
  LET n == e.n ps == e.p zs == e.z d == e.d IN
  /\ RipOK(e)
  /\ Len(ps) = n /\ \A i \in 1 .. n : Finite(ps[i]) /\ LeftHalf(ps[i])
  /\ \A i \in 1 .. Len(zs) : Finite(zs[i])
  /\ e.k # <<>>
  /\ ConjClosed(ps, d) /\ (e.fam # "bessel" => Distinct(ps))
  /\ CASE e.fam = "butterworth" -> zs = <<>> /\ \A i \in 1 .. n : ButterPole(ps[i], n, d)
       [] e.fam = "chebyshev1" -> zs = <<>> /\ \A i \in 1 .. n : Cheb1Pole(ps[i], n, e.D, d)
       [] e.fam = "chebyshev2" -> /\ Len(zs) = n - (n % 2) /\ ConjClosed(zs, d) /\ Distinct(zs)
                                  /\ \A i \in 1 .. Len(zs) : Cheb2Zero(zs[i], n, d) /\ LeqAbs(Mul(zs[i][1], zs[i][1]), Mul(Ten(-2 * d), CNorm(zs[i])))
                                  /\ \A i \in 1 .. n : Cheb2Pole(ps[i], n, e.D, d)
       [] e.fam = "bessel" -> zs = <<>> /\ BesselMonic(RootPoly(ps), n, d)
  \* gain: k prod(-z) / prod(-p), squared, is the squared gain at frequency 0; the gain itself is positive
  /\ LET a == CScale(e.k, NegProd(zs)) b == NegProd(ps) m == Dc2(e.fam, n, e.D) IN
       /\ a[1][1] = b[1][1]
       /\ Near(Mul(Mul(a[1], a[1]), m[2]), Mul(Mul(b[1], b[1]), m[1]), d)

Image(e) ==
  LET D == ImageDen(e.kind, e.p, e.w[1], e.w[2]) N == ImageNum(e.kind, e.z, Len(e.p), e.k, e.w[1], e.w[2]) IN
  /\ Form(e)
  /\ \A i \in 1 .. Len(D) : D[i][2] = 0 /\ N[i][2] = 0          \* the prototype is real
  /\ \A s \in 1 .. Len(e.c) : Near(e.c[s][2][1], One, 20)
  /\ IsImage(e.c, 2, D[1][1], D, e.dp) /\ IsImage(e.c, 1, D[1][1], N, e.dp)

Design(e) ==
  LET w == e.w IN
  /\ RipOK(e) /\ Form(e)
  /\ StagesStable(e.c)
  /\ HasGain(e.c, IF e.kind = "low" THEN 1 ELSE -1, Dc2(e.fam, e.n, e.D), e.dp)
  /\ e.fam = "bessel" => Near(Pow(e.sigma, e.n), Bessel(e.n)[1], 18)
  /\ \A i \in 1 .. Len(e.ts) :
       LET u == e.ts[i][1] v == e.ts[i][2] om == e.om[i] IN
       /\ IF e.kind = "low" THEN Near(Mul(om, F(v * w[1])), F(u * w[2]), 18) ELSE Near(Mul(om, F(u * w[2])), F(v * w[1]), 18)
       /\ HasMag(e.c, u, v, Mag2(e.fam, e.n, e.D, om, e.sigma), e.dp)

\* two forms of one design: the same polynomials; lists computed twice: the same numbers
Same(e) ==
  LET a1 == Whole(e.c, 2) a2 == Whole(e.c2, 2) b1 == Whole(e.c, 1) b2 == Whole(e.c2, 1) IN
  /\ SamePoly(a1, a2, e.dp, SumAbs(a1, Len(a1))) /\ SamePoly(b1, b2, e.dp, SumAbs(b1, Len(b1)))
Equal(e) == /\ Len(e.c) = Len(e.c2)
            /\ \A s \in 1 .. Len(e.c) : \A h \in 1 .. 2 :
                 Finite(e.c[s][h]) /\ Finite(e.c2[s][h]) /\ SamePoly(e.c[s][h], e.c2[s][h], e.dp, SumAbs(e.c[s][h], Len(e.c[s][h])))

Step(e) == CASE e.op = "prototype" -> Prototype(e)
             [] e.op = "image" -> Image(e)
             [] e.op = "design" -> Design(e)
             [] e.op = "same" -> Same(e)
             [] e.op = "equal" -> Equal(e)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
