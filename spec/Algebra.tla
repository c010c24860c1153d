------------------------------ MODULE Algebra ------------------------------
(* Fixed-length vectors, polynomials and complex numbers, on integers and   *)
(* Gaussian integers (pairs <<re, im>>).  Vectors are sequences; positions  *)
(* count from 0 as in the code.                                             *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in 1 .. Len(s)}
At(s, i) == s[i + 1]

---- \* vectors
Create(n, f(_)) == [i \in 1 .. n |-> f(i - 1)]
Full(n, v) == [i \in 1 .. n |-> v]
Map(s, f(_)) == [i \in 1 .. Len(s) |-> f(s[i])]
Sub(s, p, c) == [i \in 1 .. c |-> s[p + i]]
Erase(s, p, c) == [i \in 1 .. Len(s) - c |-> IF i <= p THEN s[i] ELSE s[i + c]]
Swap(s, a, b) == [i \in 1 .. Len(s) |-> IF i = a + 1 THEN s[b + 1] ELSE IF i = b + 1 THEN s[a + 1] ELSE s[i]]
SwapPop(s, i) == Tail(Swap(s, 0, i))
RECURSIVE Fold(_, _, _)
Fold(s, f(_, _), x) == IF s = <<>> THEN x ELSE Fold(Tail(s), f, f(x, Head(s)))
Sum(s) == LET f(x, y) == x + y IN Fold(s, f, 0)
Prod(s) == LET f(x, y) == x * y IN Fold(s, f, 1)
Max(s, x0) == LET f(x, y) == IF x > y THEN x ELSE y IN Fold(s, f, x0)
Count(s, p(_)) == Cardinality({i \in 1 .. Len(s) : p(s[i])})

Abs(x) == IF x < 0 THEN -x ELSE x
Lt(p, x, y) == CASE p = "lt" -> x < y
                 [] p = "gt" -> x > y
                 [] p = "abs" -> Abs(x) < Abs(y)
                 [] p = "mod" -> (x % 10) < (y % 10)
\* the first position whose element is not beaten by any other
IsArgMin(s, p, i) == /\ i \in 0 .. Len(s) - 1
                     /\ \A j \in 0 .. Len(s) - 1 : ~Lt(p, At(s, j), At(s, i))
                     /\ \A j \in 0 .. i - 1 : Lt(p, At(s, i), At(s, j))
IsPermutation(s, t) ==
  /\ Len(s) = Len(t)
  /\ \A x \in Range(s) \cup Range(t) :
       Cardinality({i \in 1 .. Len(s) : s[i] = x}) = Cardinality({i \in 1 .. Len(t) : t[i] = x})
IsSorted(s, p) == \A i, j \in 1 .. Len(s) : i < j => ~Lt(p, s[j], s[i])

---- \* polynomials, highest power first
Conv(a, b) ==
  [k \in 1 .. Len(a) + Len(b) - 1 |->
     Sum([i \in 1 .. Len(a) |-> IF k + 1 - i \in 1 .. Len(b) THEN a[i] * b[k + 1 - i] ELSE 0])]
RECURSIVE Poly(_)
Poly(z) == IF z = <<>> THEN <<1>> ELSE Conv(Poly(Tail(z)), <<1, -Head(z)>>)
RECURSIVE Eval(_, _)
Eval(p, x) == IF p = <<>> THEN 0 ELSE x * Eval(SubSeq(p, 1, Len(p) - 1), x) + p[Len(p)]

---- \* Gaussian integers
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CNeg(x) == <<-x[1], -x[2]>>
CSub(x, y) == CAdd(x, CNeg(y))
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Conj(x) == <<x[1], -x[2]>>
Norm(x) == x[1] * x[1] + x[2] * x[2]
RECURSIVE CSum(_)
CSum(s) == IF s = <<>> THEN <<0, 0>> ELSE CAdd(Head(s), CSum(Tail(s)))
CConv(a, b) ==
  [k \in 1 .. Len(a) + Len(b) - 1 |->
     CSum([i \in 1 .. Len(a) |-> IF k + 1 - i \in 1 .. Len(b) THEN CMul(a[i], b[k + 1 - i]) ELSE <<0, 0>>])]
RECURSIVE CPoly(_)
CPoly(z) == IF z = <<>> THEN <<<<1, 0>>>> ELSE CConv(CPoly(Tail(z)), <<<<1, 0>>, CNeg(Head(z))>>)
RECURSIVE CEval(_, _)
CEval(p, x) == IF p = <<>> THEN <<0, 0>> ELSE CAdd(CMul(x, CEval(SubSeq(p, 1, Len(p) - 1), x)), p[Len(p)])

---- \* the exponential at a ln 2 + i k pi/12: 2^a (cos k pi/12 + i sin k pi/12), in units of 10^-8
Cos12 == <<100000000, 96592583, 86602540, 70710678, 50000000, 25881905, 0>>
CosQ(k) == LET m == k % 24 IN
  IF m <= 6 THEN Cos12[m + 1] ELSE IF m <= 12 THEN -Cos12[13 - m]
  ELSE IF m <= 18 THEN -Cos12[m - 11] ELSE Cos12[25 - m]
SinQ(k) == CosQ(k + 18)
=============================================================================
