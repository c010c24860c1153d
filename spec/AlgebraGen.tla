----------------------------- MODULE AlgebraGen ----------------------------
(* Emits every shape of an operation on vectors: lengths and positions.     *)
EXTENDS Integers, TLC, Json
CONSTANT N
VARIABLE row
R(o, n, m, i, j) == [op |-> o, n |-> n, m |-> m, i |-> i, j |-> j]
Rows ==
  {R(o, n, 0, 0, 0) : o \in {"create", "full", "ones", "zeros", "convert", "default", "size", "map", "mapto", "sum", "prod", "mulred",
                             "max", "count", "sort", "neg", "mulv", "addv", "divby", "divv", "poly"}, n \in 0 .. N}
  \cup {R("eq", n, n, i, 0) : n \in 0 .. N, i \in 0 .. N}
  \cup {R("argmin", n, 0, 0, 0) : n \in 1 .. N}
  \cup {R("append", n, m, 0, 0) : n \in 0 .. N, m \in 0 .. N}
  \cup {R("conv", n, m, 0, 0) : n \in 1 .. N, m \in 1 .. N}
  \cup UNION {{R("at", n, 0, i, 0), R("swappop", n, 0, i, 0)} : n \in 1 .. N, i \in 0 .. N - 1}
  \cup {R("swap", n, 0, i, j) : n \in 1 .. N, i \in 0 .. N - 1, j \in 0 .. N - 1}
  \cup {R(o, n, 0, i, j) : o \in {"sub", "erase"}, n \in 0 .. N, i \in 0 .. N, j \in 0 .. N}
Fits(r) == CASE r.op \in {"at", "swappop"} -> r.i < r.n
             [] r.op = "swap" -> r.i < r.n /\ r.j < r.n
             [] r.op \in {"sub", "erase"} -> r.i + r.j <= r.n
             [] r.op = "eq" -> r.i <= r.n
             [] OTHER -> TRUE
Init == row \in {r \in Rows : Fits(r)}
Next == UNCHANGED row
Spec == Init /\ [][Next]_row
Emitted == PrintT(ToJson(row))
=============================================================================
