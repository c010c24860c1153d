------------------------------- MODULE Ring -------------------------------
(* embedded::circular_buffer_adapter<T>.                                   *)
(*                                                                         *)
(* The adapter manages `cap` slots of the caller's memory.  The elements   *)
(* occupy `len` consecutive slots (wrapping) starting at slot `pos`; for   *)
(* an empty buffer `pos` is the slot of the next back insertion.           *)
(* `q` is the ideal double-ended queue the adapter stands for: the ring    *)
(* is checked (RingMC) to refine it.                                       *)
(*                                                                         *)
(* Every action takes the set P of slots `pos` may be chosen from when the *)
(* interface leaves it open (the buffer becomes empty, or an insertion at  *)
(* the front of an empty buffer): all slots when model checking, the       *)
(* logged one when validating a trace.                                     *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cap,      \* number of slots
          pos,      \* slot of the first element
          len,      \* number of elements
          mem,      \* slot -> token of the live element, Dead when there is none
          q         \* the ideal deque

ringvars == <<cap, pos, len, mem, q>>

Dead == -1
Slots == 0 .. cap - 1
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

\* slot of element i (0-based) of a region starting at p
At(p, i) == (p + i) % cap
Live(p, n) == { At(p, i) : i \in 0 .. n - 1 }
Contents == [i \in 1 .. len |-> mem[At(pos, i - 1)]]
Room == cap - len

\* memory with the sequence vs written from slot p on
Put(m, p, vs) ==
  [s \in DOMAIN m |-> LET d == (s - p + cap) % cap
                      IN IF d < Len(vs) THEN vs[d + 1] ELSE m[s]]
Free(m, p, n) == [s \in DOMAIN m |-> IF ((s - p + cap) % cap) < n THEN Dead ELSE m[s]]

\* positions allowed after an operation that leaves n elements with natural position p
Pos(p, n, P) == IF n = 0 THEN P ELSE {p}

---------------------------------------------------------------------------
Attach(c, p, vs) ==        \* a new adapter over memory holding vs from slot p on
  /\ cap' = c
  /\ pos' = p
  /\ len' = Len(vs)
  /\ mem' = [s \in 0 .. c - 1 |-> LET d == (s - p + c) % c
                                  IN IF d < Len(vs) THEN vs[d + 1] ELSE Dead]
  /\ q' = vs

InsertBack(vs) ==
  /\ Len(vs) <= Room
  /\ mem' = Put(mem, At(pos, len), vs)
  /\ len' = len + Len(vs)
  /\ q' = q \o vs
  /\ UNCHANGED <<cap, pos>>

InsertFront(vs, P) ==
  /\ Len(vs) <= Room
  /\ \E p \in (IF len = 0 THEN P ELSE {(pos + cap - Len(vs)) % cap}) :
       /\ pos' = p
       /\ mem' = Put(mem, p, vs)
  /\ len' = len + Len(vs)
  /\ q' = vs \o q
  /\ UNCHANGED cap

RemoveBack(k, P) ==
  /\ k <= len
  /\ mem' = Free(mem, At(pos, len - k), k)
  /\ len' = len - k
  /\ q' = SubSeq(q, 1, Len(q) - k)
  /\ pos' \in Pos(pos, len - k, P)
  /\ UNCHANGED cap

RemoveFront(k, P) ==
  /\ k <= len
  /\ mem' = Free(mem, pos, k)
  /\ len' = len - k
  /\ q' = SubSeq(q, k + 1, Len(q))
  /\ pos' \in Pos(At(pos, k), len - k, P)
  /\ UNCHANGED cap

Overwrite(i, vs) ==        \* elements i .. i+Len(vs)-1 (0-based) get new values
  /\ i + Len(vs) <= len
  /\ mem' = Put(mem, At(pos, i), vs)
  /\ q' = [j \in 1 .. Len(q) |-> IF j > i /\ j <= i + Len(vs) THEN vs[j - i] ELSE q[j]]
  /\ UNCHANGED <<cap, pos, len>>

Keep == UNCHANGED ringvars

---------------------------------------------------------------------------
(* The public operations.  Insertions of one element differ only in how    *)
(* the element is constructed, which matters for lifetimes (RingTrace).    *)
PushBack(v)        == len < cap /\ InsertBack(<<v>>)
PushFront(v, P)    == len < cap /\ InsertFront(<<v>>, P)
PopBack(P)         == len > 0 /\ RemoveBack(1, P)
PopFront(P)        == len > 0 /\ RemoveFront(1, P)
PopBackN(k, P)     == RemoveBack(k, P)
PopFrontN(k, P)    == RemoveFront(k, P)
Clear(P)           == RemoveFront(len, P)
Assign(i, v)       == i < len /\ Overwrite(i, <<v>>)
CopyInBack(vs)     == InsertBack(vs)
CopyInFront(vs, P) == InsertFront(vs, P)
CopyOutBack(k, P)  == RemoveBack(k, P)
CopyOutFront(k, P) == RemoveFront(k, P)
CopyInRange(i, vs) == Overwrite(i, vs)
CopyOutRange(i, k) == i + k <= len /\ Keep
FailedInsert       == len < cap /\ Keep
Reattach           == Keep      \* a new adapter from raw position and count
MoveAdapter        == Keep
Read               == Keep
=============================================================================
