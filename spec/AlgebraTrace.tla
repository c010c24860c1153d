---------------------------- MODULE AlgebraTrace ---------------------------
(* Validates logged evaluations (at compile time or at run time) against    *)
(* Algebra.  Elements are integers, or pairs for complex numbers; Unordered *)
(* stands for a value that is not equal to anything (NaN).                  *)
EXTENDS Algebra, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Unordered == 999999
B(x) == IF x THEN 1 ELSE 0

Pred(p, v, x) == CASE p = "neg" -> x < 0 [] p = "gtv" -> x > v [] p = "even" -> x % 2 = 0 [] p = "all" -> TRUE [] p = "none" -> FALSE
Aff(v, i, x) == v * x + i

VecOK(e) ==
  LET a == e.a b == e.b i == e.i j == e.j v == e.v r == e.r
      n == Len(a) IN
  CASE e.op = "create" -> LET f(k) == v + i * k IN r = Create(e.n, f)
    [] e.op = "full" -> r = Full(e.n, v)
    [] e.op = "ones" -> r = Full(e.n, 1)
    [] e.op \in {"zeros", "default"} -> r = Full(e.n, 0)
    [] e.op = "convert" -> r = a
    [] e.op = "size" -> r = <<e.n>>
    [] e.op = "at" -> r = <<At(a, i)>>
    [] e.op = "append" -> r = a \o b
    [] e.op = "sub" -> r = Sub(a, i, j)
    [] e.op = "erase" -> r = Erase(a, i, j)
    [] e.op = "swap" -> r = Swap(a, i, j)
    [] e.op = "swappop" -> r = SwapPop(a, i)
    [] e.op \in {"map", "mapto"} -> LET f(x) == Aff(v, i, x) IN r = Map(a, f)
    [] e.op = "sum" -> r = <<v + Sum(a)>>
    [] e.op \in {"prod", "mulred"} -> r = <<Prod(a)>>
    [] e.op = "max" -> r = <<Max(a, v)>>
    [] e.op = "eq" -> r = <<B(a = b /\ (e.t \in {"d", "f"} => Unordered \notin Range(a)))>>
    [] e.op = "argmin" -> IsArgMin(a, e.p, r[1])
    [] e.op = "count" -> LET f(x) == Pred(e.p, v, x) IN r = <<Count(a, f)>>
    [] e.op = "sort" -> IsPermutation(a, r) /\ IsSorted(r, e.p)
    [] e.op = "neg" -> r = [k \in 1 .. n |-> -a[k]]
    [] e.op = "mulv" -> r = [k \in 1 .. n |-> v * a[k]]
    [] e.op = "addv" -> r = [k \in 1 .. n |-> v + a[k]]
    [] e.op = "divby" -> Len(r) = n /\ \A k \in 1 .. n : Abs(r[k]) < 1000000 /\ v * r[k] = a[k]
    [] e.op = "divv" -> Len(r) = n /\ \A k \in 1 .. n : Abs(r[k]) < 1000000 /\ r[k] * a[k] = v
    [] e.op = "conv" -> r = Conv(a, b)
    [] e.op = "poly" -> r = Poly(a)
    [] e.op = "cconv" -> r = CConv(a, b)
    [] e.op = "cpoly" -> r = CPoly(a)
    [] e.op = "cneg" -> r = [k \in 1 .. n |-> CNeg(a[k])]
    [] e.op = "cmulv" -> r = [k \in 1 .. n |-> <<v * a[k][1], v * a[k][2]>>]
    [] OTHER -> FALSE

\* complex numbers: operands x, y; the power-of-two scales the driver applied to them were taken out again
ComplexOK(e) ==
  LET x == e.x y == e.y r == e.r IN
  CASE e.op = "cadd" -> r = <<CAdd(x, y)>>
    [] e.op = "csub" -> r = <<CSub(x, y)>>
    [] e.op = "cmul" -> r = <<CMul(x, y)>>
    [] e.op = "cnegs" -> r = <<CNeg(x)>>
    [] e.op = "conj" -> r = <<Conj(x)>>
    [] e.op = "norm" -> r = <<Norm(x)>>
    [] e.op = "isreal" -> r = <<B(x[2] = 0)>>
    [] e.op = "ceq" -> r = <<B(x = y)>>
    [] e.op = "parts" -> r = x
    \* the quotient, multiplied by the squared magnitude of the divisor
    [] e.op \in {"cdiv", "cdivx"} -> e.k = Norm(y) /\ r = <<CMul(x, Conj(y))>>
    \* magnitudes, times 100 and rounded; a whole magnitude exactly
    [] e.op \in {"abs", "dist"} ->
         LET m == Norm(IF e.op = "abs" THEN x ELSE CSub(x, y)) IN
           /\ r[1] \in 0 .. 20000
           /\ (2 * r[1] - 1) * (2 * r[1] - 1) - 1 <= 4 * m * 10000
           /\ 4 * m * 10000 <= (2 * r[1] + 1) * (2 * r[1] + 1) + 1
           /\ r[2] >= 0 => r[2] * r[2] = m
           /\ \A q \in 0 .. 40 : q * q = m => r[2] = q
    [] e.op = "cexp" -> Len(r) = 1 /\ r[1][1] < 200000000 /\ r[1][2] < 200000000 /\ Abs(r[1][1] - CosQ(e.k)) <= 4 /\ Abs(r[1][2] - SinQ(e.k)) <= 4
    \* element-wise forms equal the scalar ones
    [] e.op = "elem" -> \A k \in 1 .. Len(r) : r[k] = 1
    [] OTHER -> FALSE

Step(e) == (IF "x" \in DOMAIN e THEN ComplexOK(e) ELSE VecOK(e))
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
