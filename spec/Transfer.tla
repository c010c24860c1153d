------------------------------ MODULE Transfer -----------------------------
(* Transfer functions of zero/pole/gain descriptions over the Gaussian       *)
(* integers, and the two filter forms realising them.  Polynomials are       *)
(* coefficient sequences, highest power first.                               *)
EXTENDS Algebra
Conjugate(z) == <<z[1], -z[2]>>
IsReal(z) == z[2] = 0
CountOf(s, z) == Cardinality({i \in DOMAIN s : s[i] = z})
Closed(s) == \A i \in DOMAIN s : CountOf(s, s[i]) = CountOf(s, Conjugate(s[i]))
\* the real polynomial with the given zeros
RealPoly(zs) == LET c == CPoly(zs) IN [k \in 1 .. Len(c) |-> c[k][1]]
RECURSIVE ProdFrom(_, _, _)
ProdFrom(ps, i, acc) == IF i > Len(ps) THEN acc ELSE ProdFrom(ps, i + 1, Conv(acc, ps[i]))
PolyProd(ps) == ProdFrom(ps, 1, <<1>>)
Scale(k, p) == [i \in 1 .. Len(p) |-> k * p[i]]
RECURSIVE IntPow(_, _)
IntPow(x, n) == IF n = 0 THEN 1 ELSE x * IntPow(x, n - 1)
\* odd orders are padded with a zero and a pole at the origin
Even(zs) == IF Len(zs) % 2 = 0 THEN zs ELSE Append(zs, <<0, 0>>)

\* sections c[s] = <<b, a>> realise zeros zs, poles ps, gain k
Sections(zs, ps, k, c) ==
  /\ Len(c) = (Len(ps) + 1) \div 2
  /\ \A s \in 1 .. Len(c) : Len(c[s][1]) = 3 /\ Len(c[s][2]) = 3 /\ c[s][2][1] = 1
  /\ PolyProd([s \in 1 .. Len(c) |-> c[s][2]]) = RealPoly(Even(ps))
  /\ PolyProd([s \in 1 .. Len(c) |-> c[s][1]]) = Scale(k, RealPoly(Even(zs)))
FirstSection(k, c) == \A s \in 1 .. Len(c) : c[s][1][1] = (IF s = 1 THEN k ELSE 1)
Spread(k, c) == /\ \A s \in 1 .. Len(c) : c[s][1][1] = c[1][1][1]
                /\ c[1][1][1] > 0
SinglePoly(zs, ps, k, c) == Len(c) = 1 /\ c[1][1] = Scale(k, RealPoly(zs)) /\ c[1][2] = RealPoly(ps)

---- \* the same where the numbers are too large: residues modulo M (46337 at most, so that products stay in range)
CMulM(x, y, M) == << (((x[1] * y[1]) % M) + (M - ((x[2] * y[2]) % M))) % M, (((x[1] * y[2]) % M) + ((x[2] * y[1]) % M)) % M >>
CAddM(x, y, M) == << (x[1] + y[1]) % M, (x[2] + y[2]) % M >>
CNegM(x, M) == << (M - x[1]) % M, (M - x[2]) % M >>
\* p times (x - r)
CTimesM(p, r, M) == [i \in 1 .. Len(p) + 1 |-> CAddM(IF i <= Len(p) THEN p[i] ELSE <<0, 0>>,
                                                    IF i > 1 THEN CMulM(CNegM(r, M), p[i - 1], M) ELSE <<0, 0>>, M)]
RECURSIVE CPolyM(_, _, _, _)
CPolyM(zs, i, acc, M) == IF i > Len(zs) THEN acc ELSE CPolyM(zs, i + 1, CTimesM(acc, zs[i], M), M)
RealPolyM(zs, M) == LET c == CPolyM(zs, 1, <<<<1, 0>>>>, M) IN [k \in 1 .. Len(c) |-> c[k][1]]
RECURSIVE SumM(_, _, _)
SumM(s, acc, M) == IF s = <<>> THEN acc ELSE SumM(Tail(s), (acc + Head(s)) % M, M)
ConvM(a, b, M) == [k \in 1 .. Len(a) + Len(b) - 1 |->
                    SumM([i \in 1 .. Len(a) |-> IF k + 1 - i \in 1 .. Len(b) THEN (a[i] * b[k + 1 - i]) % M ELSE 0], 0, M)]
RECURSIVE ProdFromM(_, _, _, _)
ProdFromM(ps, i, acc, M) == IF i > Len(ps) THEN acc ELSE ProdFromM(ps, i + 1, ConvM(acc, ps[i], M), M)
PolyProdM(ps, M) == ProdFromM(ps, 1, <<1>>, M)
ScaleM(k, p, M) == [i \in 1 .. Len(p) |-> (k * p[i]) % M]
Residues(c, M) == \A s \in 1 .. Len(c) : \A j \in 1 .. 2 : \A i \in 1 .. Len(c[s][j]) : c[s][j][i] \in 0 .. M - 1
SectionsM(zs, ps, k, c, M) ==
  /\ Residues(c, M)
  /\ Len(c) = (Len(ps) + 1) \div 2
  /\ \A s \in 1 .. Len(c) : Len(c[s][1]) = 3 /\ Len(c[s][2]) = 3 /\ c[s][2][1] = 1
  /\ PolyProdM([s \in 1 .. Len(c) |-> c[s][2]], M) = RealPolyM(Even(ps), M)
  /\ PolyProdM([s \in 1 .. Len(c) |-> c[s][1]], M) = ScaleM(k, RealPolyM(Even(zs), M), M)
SinglePolyM(zs, ps, k, c, M) == Len(c) = 1 /\ Residues(c, M) /\ c[1][1] = ScaleM(k, RealPolyM(zs, M), M) /\ c[1][2] = RealPolyM(ps, M)
=============================================================================
