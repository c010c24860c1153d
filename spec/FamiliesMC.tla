----------------------------- MODULE FamiliesMC ----------------------------
(* The definitions of Families agree with each other.                        *)
EXTENDS Families
CONSTANTS Orders, Pts         \* Pts: points are (a - 3)/1 + j (b - 3)
VARIABLES n, a, b
vars == <<n, a, b>>
Init == n \in Orders /\ a \in Pts /\ b \in Pts
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Pt == <<F(a - 3), F(b - 3)>>
Same(u, v) == CSub(u, v) = <<Zero, Zero>>
Chebyshev == Same(CheT(Pt, n), TRec(Pt, n)) /\ (b = 3 => Same(<<RTRec(F(a - 3), n, One, F(a - 3)), Zero>>, CheT(Pt, n)))
\* s^n T_n(j/s): at s = 1/x for whole x, scaled by x^n: T_n(j x); and by recurrence U_(k+1) = 2j U_k - s^2 U_(k-1)
RECURSIVE URec(_, _)
URec(s, m) == IF m = 0 THEN COne ELSE IF m = 1 THEN J ELSE CSub(CScale(F(2), CMul(J, URec(s, m - 1))), CMul(CMul(s, s), URec(s, m - 2)))
Homogeneous == Same(CheU(Pt, n), URec(Pt, n)) /\ Same(UPair(Pt, n)[3], CPow(Pt, 2 * n))
AtJ == Same(CheU(<<One, Zero>>, n), CheT(J, n))
\* theta_n(1) theta_n coefficients: ratio formula and value of the constant term (2n-1)!!
RECURSIVE DFact(_)
DFact(m) == IF m <= 0 THEN One ELSE Mul(F(m), DFact(m - 2))
BesselRatio == LET c == Bessel(n) IN /\ Sub(c[1], DFact(2 * n - 1)) = Zero /\ Sub(c[n + 1], One) = Zero
                                     /\ \A k \in 0 .. n - 1 : Sub(Mul(F((2 * n - k) * (k + 1)), c[k + 2]), Mul(F(2 * (n - k)), c[k + 1])) = Zero
\* known polynomials with these roots have them: s^2 + 2 s + 2 has -1 +- j
Roots == RootPoly(<<<<F(-1), F(1)>>, <<F(-1), F(-1)>>, <<F(-3), Zero>>>>) = <<F(6), F(8), F(5), One>>
=============================================================================
