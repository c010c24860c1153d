----------------------------- MODULE AlgebraMC -----------------------------
(* The operators of Algebra satisfy the laws that make them the intended    *)
(* ones; exhaustively over small vectors and Gaussian integers.  A state is *)
(* one choice of operands.                                                  *)
EXTENDS Algebra, TLC
CONSTANTS RawVals, MaxLen, RawG
Vals == {v - 2 : v \in RawVals}
G == {v - 3 : v \in RawG}
VARIABLES s, t, x, y, z
vars == <<s, t, x, y, z>>
Vecs == UNION {[1 .. n -> Vals] : n \in 0 .. MaxLen}
Gs == {<<a, b>> : a \in G, b \in G}
Zero == <<0, 0>>

Init == s = <<>> /\ t = <<>> /\ x = Zero /\ y = Zero /\ z = Zero
Start == s = <<>> /\ t = <<>> /\ x = Zero /\ y = Zero /\ z = Zero
Next == /\ Start
        /\ \/ s' \in Vecs /\ t' \in Vecs /\ UNCHANGED <<x, y, z>>
           \/ x' \in Gs /\ y' \in Gs /\ z' \in Gs /\ UNCHANGED <<s, t>>
Spec == Init /\ [][Next]_vars

VectorLaws ==
  /\ \A p \in 0 .. Len(s) : \A c \in 0 .. Len(s) - p :
       /\ Sub(s, 0, p) \o Sub(s, p, c) \o Sub(s, p + c, Len(s) - p - c) = s
       /\ Erase(s, p, c) = Sub(s, 0, p) \o Sub(s, p + c, Len(s) - p - c)
       /\ IsPermutation(Erase(s, p, c) \o Sub(s, p, c), s)
  /\ \A i, j \in 0 .. Len(s) - 1 :
       /\ Swap(Swap(s, i, j), i, j) = s /\ IsPermutation(Swap(s, i, j), s) /\ Swap(s, i, j) = Swap(s, j, i)
       /\ IsPermutation(SwapPop(s, i) \o <<At(s, i)>>, s)
  /\ \A p \in {"lt", "gt", "abs", "mod"} : Len(s) > 0 => Cardinality({i \in 0 .. Len(s) : IsArgMin(s, p, i)}) = 1
  /\ Sum(s \o t) = Sum(s) + Sum(t)
  /\ Prod(s \o t) = Prod(s) * Prod(t)
PolyLaws ==
  /\ (Len(s) > 0 /\ Len(t) > 0) =>
       /\ Conv(s, t) = Conv(t, s)
       /\ \A v \in Vals : Eval(Conv(s, t), v) = Eval(s, v) * Eval(t, v)
  /\ LET p == Poly(s) IN
       /\ p[1] = 1 /\ Len(p) = Len(s) + 1
       /\ \A v \in Vals : Eval(p, v) = Prod([i \in 1 .. Len(s) |-> v - s[i]])
       /\ IsPermutation(s, t) => Poly(t) = p
ComplexLaws ==
  /\ CMul(x, CMul(y, z)) = CMul(CMul(x, y), z)
  /\ CMul(x, y) = CMul(y, x)
  /\ CMul(x, CAdd(y, z)) = CAdd(CMul(x, y), CMul(x, z))
  /\ CAdd(x, CNeg(x)) = Zero
  /\ Norm(CMul(x, y)) = Norm(x) * Norm(y)
  /\ CMul(x, Conj(x)) = <<Norm(x), 0>>
  /\ Conj(CMul(x, y)) = CMul(Conj(x), Conj(y))
  \* the quotient q of x by y (times Norm(y)) solves q y = x
  /\ CMul(CMul(x, Conj(y)), y) = <<Norm(y) * x[1], Norm(y) * x[2]>>
  /\ LET p == CPoly(<<x, y, z>>) IN
       CEval(p, x) = Zero /\ CEval(p, y) = Zero /\ CEval(p, z) = Zero /\ p[1] = <<1, 0>>
       /\ p = CPoly(<<z, x, y>>)
ExpLaws == \A k \in -30 .. 30 :
  /\ Abs((CosQ(k) \div 10000) * (CosQ(k) \div 10000) + (SinQ(k) \div 10000) * (SinQ(k) \div 10000) - 100000000) < 40000
  /\ CosQ(-k) = CosQ(k) /\ SinQ(-k) = -SinQ(k) /\ CosQ(k + 12) = -CosQ(k)
=============================================================================
