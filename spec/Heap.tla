-------------------------------- MODULE Heap ---------------------------------
(* Every part works in the memory it is given or consists of: no step of any *)
(* part, of whatever size, takes from or returns to the heap.                *)
EXTENDS Integers, Sequences, FiniteSets
Sizes == [ ring |-> {0, 1, 2, 3, 7, 8, 64, 255, 256, 257, 1000, 65537, 300000}, objects |-> {0, 1, 2, 3, 7, 64, 257, 5000},
           bulk |-> {0, 1, 2, 3, 7, 64, 255, 256, 257, 1025, 65537, 300000},
           function |-> {1, 7, 8, 16, 33, 64, 256, 1000, 4096}, members |-> {8, 16, 64}, varint |-> {1, 2, 100, 10000}, guard |-> {1, 2, 40}, mover |-> {1, 2, 1000},
           vector |-> {0, 1, 2, 3, 8, 9, 16, 17, 33, 48}, conv |-> {1, 2, 3, 8, 9, 16, 24}, poly |-> {0, 1, 2, 3, 8, 9, 16, 24}, complex |-> {1, 2, 8, 20},
           sos |-> {1, 2, 3, 4, 5, 8, 9, 16, 17, 24}, polyform |-> {1, 2, 3, 4, 5, 8, 9, 16, 17, 24}, design |-> {1, 2, 3, 4, 5, 8, 9, 16, 17, 24},
           chebyshev |-> {1, 2, 3, 6, 9}, bessel |-> {1, 2, 3, 10, 40} ]
Parts == DOMAIN Sizes
Rows == { <<p, n>> : p \in Parts, n \in Nat }                  \* any size
Chosen == UNION { { <<p, n>> : n \in Sizes[p] } : p \in Parts }

\* the system: blocks of the heap, the owner of each; the parts own none
VARIABLES blocks, own, last
vars == <<blocks, own, last>>
Caller == "caller"
Init == blocks = {} /\ own = <<>> /\ last = <<>>
Obtain(b) == /\ b \notin blocks /\ blocks' = blocks \cup {b} /\ own' = [ x \in blocks' |-> Caller ] /\ last' = <<>>
Return(b) == /\ b \in blocks /\ blocks' = blocks \ {b} /\ own' = [ x \in blocks' |-> Caller ] /\ last' = <<>>
Step(p, n) == /\ last' = <<p, n>> /\ UNCHANGED <<blocks, own>>
Quiet == [](\A b \in blocks : own[b] = Caller)
Untouched == [][last' # <<>> => blocks' = blocks]_vars
=============================================================================
