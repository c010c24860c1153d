------------------------------ MODULE Families -----------------------------
(* The analog filter families, over BigFloat numbers.                        *)
(* A family is described by its name, its order n and (for the Chebyshev     *)
(* families) D = 10^(ripple/10) - 1.                                         *)
EXTENDS BigFloat
F(i) == FromInt(i)
FC(i) == <<F(i), Zero>>
CScale(r, z) == <<Mul(r, z[1]), Mul(r, z[2])>>
CNegate(z) == <<Neg(z[1]), Neg(z[2])>>
\* Chebyshev polynomials at a complex point: <<T_k, T_(k+1)>> by doubling
RECURSIVE TPair(_, _)
TPair(x, k) ==
  IF k = 0 THEN <<COne, x>>
  ELSE LET h == TPair(x, k \div 2) a == h[1] b == h[2]
           sq(u) == CSub(CScale(F(2), CMul(u, u)), COne)          \* T_2m = 2 T_m^2 - 1
           mid == CSub(CScale(F(2), CMul(a, b)), x)                \* T_(2m+1) = 2 T_m T_(m+1) - x
       IN IF k % 2 = 0 THEN <<sq(a), mid>> ELSE <<mid, sq(b)>>
CheT(x, n) == TPair(x, n)[1]
\* the same by the three term recurrence
RECURSIVE TRec(_, _)
TRec(x, n) == IF n = 0 THEN COne ELSE IF n = 1 THEN x ELSE CSub(CScale(F(2), CMul(x, TRec(x, n - 1))), TRec(x, n - 2))
RECURSIVE RTRec(_, _, _, _)
\* real points: t = T_k, u = T_(k+1)
RTRec(x, n, t, u) == IF n = 0 THEN t ELSE RTRec(x, n - 1, u, Sub(Mul(F(2), Mul(x, u)), t))
\* s^n T_n(j/s): <<s^k T_k, s^(k+1) T_(k+1), s^2k>> by doubling
J == <<Zero, One>>
RECURSIVE UPair(_, _)
UPair(s, k) ==
  IF k = 0 THEN <<COne, J, COne>>
  ELSE LET h == UPair(s, k \div 2) a == h[1] b == h[2] s2m == h[3]  \* m = k div 2
           s2 == CMul(s, s)
           even == CSub(CScale(F(2), CMul(a, a)), s2m)
           mid == CSub(CScale(F(2), CMul(a, b)), CMul(J, s2m))
           odd == CSub(CScale(F(2), CMul(b, b)), CMul(s2m, s2))
       IN IF k % 2 = 0 THEN <<even, mid, CMul(s2m, s2m)>> ELSE <<mid, odd, CMul(CMul(s2m, s2m), s2)>>
CheU(s, n) == UPair(s, n)[1]

\* is s a pole / a zero of the family, up to a relative residual of 10^-d
Tiny(z, d, scale2) == LeqAbs(CNorm(z), Mul(Ten(-2 * d), scale2))   \* |z|^2 <= 10^-2d scale2
ButterPole(s, n, d) == LET q == CPow(s, 2 * n) IN Tiny(IF n % 2 = 0 THEN CAdd(q, COne) ELSE CSub(q, COne), d, One)
\* 1 + D T_n^2(s/j) = 0
Cheb1Pole(s, n, D, d) == LET t == CheT(<<s[2], Neg(s[1])>>, n) IN Tiny(CAdd(COne, CScale(D, CMul(t, t))), d, F(1))
\* D + T_n^2(j/s) = 0
Cheb2Pole(s, n, D, d) == LET u == UPair(s, n)  v == CPow(s, 2 * n) IN Tiny(CAdd(CScale(D, v), CMul(u[1], u[1])), d, Mul(Mul(D, D), CNorm(v)))
\* T_n(j/s) = 0
Cheb2Zero(s, n, d) == Tiny(CheU(s, n), d, Pow(CNorm(s), n))

LeftHalf(s) == s[1][1] < 0
\* no two of the roots coincide
Distinct(ps) == \A i, j \in 1 .. Len(ps) : i < j => ~Tiny(CSub(ps[i], ps[j]), 4, CNorm(ps[i]))
\* every root has its conjugate in the list
ConjClosed(ps, d) == \A i \in 1 .. Len(ps) : \E j \in 1 .. Len(ps) :
   /\ (j = i) = (ps[i][2][1] = 0)
   /\ Tiny(CSub(ps[j], <<ps[i][1], Neg(ps[i][2])>>), d, CNorm(ps[i]))
RECURSIVE CProd(_, _, _)
CProd(ps, i, acc) == IF i > Len(ps) THEN acc ELSE CProd(ps, i + 1, CMul(acc, CNegate(ps[i])))
NegProd(ps) == CProd(ps, 1, COne)               \* product of -p

\* the real polynomial with the conjugate-closed roots ps, constant term first
RECURSIVE QuadProd(_, _, _)
QuadProd(ps, i, acc) ==
  IF i > Len(ps) THEN acc
  ELSE LET s == ps[i] sg == s[2][1] IN
       IF sg = 0 THEN QuadProd(ps, i + 1, PMul(acc, <<Neg(s[1]), One>>))
       ELSE IF sg > 0 THEN QuadProd(ps, i + 1, PMul(acc, <<CNorm(s), Mul(F(-2), s[1]), One>>))
       ELSE QuadProd(ps, i + 1, acc)
RootPoly(ps) == QuadProd(ps, 1, <<One>>)

\* reverse Bessel polynomials: theta_n = (2n-1) theta_(n-1) + s^2 theta_(n-2)
RECURSIVE Bessel(_)
Bessel(n) == IF n = 0 THEN <<One>> ELSE IF n = 1 THEN <<One, One>>
  ELSE LET a == Bessel(n - 1) b == Bessel(n - 2) IN
       [k \in 1 .. n + 1 |-> Add(IF k <= n THEN Mul(F(2 * n - 1), a[k]) ELSE Zero, IF k > 2 THEN b[k - 2] ELSE Zero)]
\* c is the reverse Bessel polynomial of order n with its variable scaled so that it is monic with constant term 1:
\* neighbouring coefficients are in the ratio 2(n-k) sigma : (2n-k)(k+1), and sigma = c_1 / c_0
BesselMonic(c, n, d) ==
  /\ Len(c) = n + 1
  /\ Near(c[n + 1], One, d) /\ Near(c[1], One, d)
  /\ \A k \in 0 .. n - 1 : Near(Mul(F((2 * n - k) * (k + 1)), c[k + 2]), Mul(F(2 * (n - k)), Mul(c[2], c[k + 1])), d)

\* squared magnitude of the response at frequency Om = num / den (den of |H|^2 first): <<numerator, denominator>>
Mag2(fam, n, D, Om, sigma) ==
  CASE fam = "butterworth" -> <<One, Add(One, Pow(Om, 2 * n))>>
    [] fam = "chebyshev1" -> LET t == RTRec(Om, n, One, Om) IN <<One, Add(One, Mul(D, Mul(t, t)))>>
    \* in terms of s^n T_n(1/s): numerator T^2, denominator D + T^2
    [] fam = "chebyshev2" -> LET u == CheU(<<Zero, Om>>, n) m == CNorm(u) IN <<m, Add(m, Mul(D, Pow(Om, 2 * n)))>>
    [] fam = "bessel" ->                        \* |theta(j sigma Om)|^2, theta(0) = 1
         LET b == Bessel(n) x == Mul(sigma, Om)
             RECURSIVE S(_, _)
             S(k, acc) == IF k > n THEN acc
                          ELSE LET t == Mul(b[k + 1], Pow(x, k)) IN
                               S(k + 1, CASE k % 4 = 0 -> CAdd(acc, <<t, Zero>>) [] k % 4 = 1 -> CAdd(acc, <<Zero, t>>)
                                          [] k % 4 = 2 -> CSub(acc, <<t, Zero>>) [] k % 4 = 3 -> CSub(acc, <<Zero, t>>))
         IN <<Mul(b[1], b[1]), CNorm(S(0, <<Zero, Zero>>))>>
\* numerator and denominator of the squared gain at frequency 0
Dc2(fam, n, D) == IF fam = "chebyshev1" /\ n % 2 = 0 THEN <<One, Add(One, D)>> ELSE <<One, One>>
=============================================================================
