------------------------------- MODULE RingMC -------------------------------
(* Exhaustive checking of Ring for small capacities, and emission of every  *)
(* transition as a test case for the implementation.                        *)
(*                                                                          *)
(* Insertions are modelled here at the grain a power failure sees: each     *)
(* slot is written by its own step, the bookkeeping changes last.  A crash  *)
(* between any two steps re-attaches with the bookkeeping saved before.     *)
EXTENDS Ring, TLC, Json

CONSTANTS MaxCap, Emit

VARIABLES fly,      \* insertion in progress: [at, vs, done, p, n, q] or NoFly
          lab       \* last operation, only for emission (hidden by VIEW)

vars == <<cap, pos, len, mem, q, fly, lab>>
NoFly == <<>>
view == <<cap, pos, len, mem, fly>>

Toks(n) == [i \in 1 .. n |-> 20 + i]        \* values of new elements
L(op, k, n, i) == lab' = [op |-> op, k |-> k, n |-> n, i |-> i]

Init ==
  \E c \in 1 .. MaxCap : \E p \in 0 .. c - 1 : \E n \in 0 .. c :
    LET vs == [i \in 1 .. n |-> i]
    IN /\ cap = c
       /\ pos = p
       /\ len = n
       /\ mem = [s \in 0 .. c - 1 |-> LET d == (s - p + c) % c IN IF d < n THEN vs[d + 1] ELSE Dead]
       /\ q = vs
       /\ fly = NoFly
       /\ lab = [op |-> "init", k |-> "", n |-> 0, i |-> 0]

Idle == fly = NoFly

\* atomic view of every operation -------------------------------------------
Atomic ==
  /\ Idle
  /\ fly' = NoFly
  /\ \/ \E k \in {"c", "m", "e", "x", "l"} : PushBack(21) /\ L("pushb", k, 21, 0)
     \/ \E k \in {"c", "m", "e", "x", "l"} : PushFront(21, Slots) /\ L("pushf", k, 21, 0)
     \/ \E i \in 0 .. len - 1 : PushBack(q[i + 1]) /\ L("pushb", "a", i, 0)
     \/ \E i \in 0 .. len - 1 : PushFront(q[i + 1], Slots) /\ L("pushf", "a", i, 0)
     \/ \E k \in {"c", "m", "e", "x", "l"} : \E o \in {"failb", "failf"} : FailedInsert /\ L(o, k, 21, 0)
     \/ \E i \in 0 .. len - 1 : \E o \in {"failb", "failf"} : FailedInsert /\ L(o, "a", i, 0)
     \/ PopBack(Slots) /\ L("popb", "", 0, 0)
     \/ PopFront(Slots) /\ L("popf", "", 0, 0)
     \/ \E n \in 0 .. len : PopBackN(n, Slots) /\ L("popbn", "", n, 0)
     \/ \E n \in 0 .. len : PopFrontN(n, Slots) /\ L("popfn", "", n, 0)
     \/ Clear(Slots) /\ L("clear", "", 0, 0)
     \/ \E i \in 0 .. len - 1 : \E k \in {"0", "1", "4"} : Assign(i, 21) /\ L("set", k, 21, i)
     \/ len > 0 /\ Assign(0, 21) /\ L("set", "2", 21, 0)
     \/ len > 0 /\ Assign(len - 1, 21) /\ L("set", "3", 21, len - 1)
     \/ \E i \in 0 .. cap + 2 : Read /\ L("at", "", 0, i)
     \/ Read /\ L("itall", "", 0, 0)
     \/ \E n \in 0 .. Room : CopyInBack(Toks(n)) /\ L("cinb", "", n, 0)
     \/ \E n \in 0 .. Room : CopyInFront(Toks(n), Slots) /\ L("cinf", "", n, 0)
     \/ \E n \in 0 .. len : CopyOutBack(n, Slots) /\ L("coutb", "", n, 0)
     \/ \E n \in 0 .. len : CopyOutFront(n, Slots) /\ L("coutf", "", n, 0)
     \/ \E i \in 0 .. len : \E n \in 0 .. len - i : CopyInRange(i, Toks(n)) /\ L("cinr", "", n, i)
     \/ \E i \in 0 .. len : \E n \in 0 .. len - i : \E k \in {"c", "m"} : CopyOutRange(i, n) /\ L("coutr", k, n, i)
     \/ \E f \in {"0", "1", "4", "5", "0 end", "1 end"} : Reattach /\ L("reattach", f, 0, 0)
     \/ \E f \in {"c", "a", "s", "o", "f"} : MoveAdapter /\ L("move", f, 0, 0)
     \/ \E f \in {"reverse", "sort", "rsort", "stable"} : Read /\ L("algo", f, 0, 0)
     \/ \E n \in 0 .. len : Read /\ L("algo", "rotate", n, 0)

\* insertions step by step, for crashes -------------------------------------
BeginInsert ==
  /\ Idle
  /\ \E n \in 1 .. Room :
       \/ fly' = [p |-> At(pos, len), vs |-> Toks(n), done |-> {}, np |-> pos]
       \/ \E p \in (IF len = 0 THEN Slots ELSE {(pos + cap - n) % cap}) :
            fly' = [p |-> p, vs |-> Toks(n), done |-> {}, np |-> p]
  /\ L("begin", "", 0, 0)
  /\ UNCHANGED <<cap, pos, len, mem, q>>

WriteSlot ==
  /\ ~Idle
  /\ \E i \in (1 .. Len(fly.vs)) \ fly.done :
       /\ mem' = [mem EXCEPT ![At(fly.p, i - 1)] = fly.vs[i]]
       /\ fly' = [fly EXCEPT !.done = @ \cup {i}]
  /\ L("write", "", 0, 0)
  /\ UNCHANGED <<cap, pos, len, q>>

Commit ==
  /\ ~Idle
  /\ fly.done = 1 .. Len(fly.vs)
  /\ pos' = fly.np
  /\ len' = len + Len(fly.vs)
  /\ q' = IF fly.np = pos /\ fly.p = At(pos, len) THEN q \o fly.vs ELSE fly.vs \o q
  /\ fly' = NoFly
  /\ L("commit", "", 0, 0)
  /\ UNCHANGED <<cap, mem>>

Crash ==                     \* power fails; re-attach with the saved pos, len
  /\ ~Idle
  /\ mem' = [s \in Slots |-> IF s \in Live(pos, len) THEN mem[s] ELSE Dead]
  /\ fly' = NoFly
  /\ L("crash", "", 0, 0)
  /\ UNCHANGED <<cap, pos, len, q>>

Next == Atomic \/ BeginInsert \/ WriteSlot \/ Commit \/ Crash
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK ==
  /\ cap \in 1 .. MaxCap /\ pos \in Slots /\ len \in 0 .. cap
  /\ DOMAIN mem = Slots

\* the ring refines the deque, at every moment, also in the middle of an insertion
Refines == Contents = q
\* no live object outside the elements (when no insertion is under way)
ExactlyLive == Idle => \A s \in Slots : (mem[s] # Dead) <=> (s \in Live(pos, len))
\* a crash at this very moment loses nothing
CrashSafe == ~Idle => /\ \A i \in 1 .. len : mem[At(pos, i - 1)] = q[i]
                      /\ \A i \in fly.done : At(fly.p, i - 1) \notin Live(pos, len)

\* surviving elements keep their slot: every slot live before and after that was not assigned keeps its element
NoMove ==
  [][(Idle /\ fly' = NoFly /\ lab'.op \notin {"set", "cinr"}) =>
       \A s \in Live(pos, len) : \/ mem'[s] = mem[s]
                                 \/ mem'[s] = Dead]_vars
\* counted removal equals repeated removal; bulk copies equal repeated single ones
FrontN == [][(Idle /\ lab'.op \in {"popfn", "coutf"}) => q' = SubSeq(q, lab'.n + 1, Len(q))]_vars
BackN == [][(Idle /\ lab'.op \in {"popbn", "coutb"}) => q' = SubSeq(q, 1, Len(q) - lab'.n)]_vars

\* emission: one JSON line per transition of the implementation's interface.  Every ring position and fill
\* level is an initial state, so the transitions of the initial states are all there are up to renaming tokens.
EmitStep ==
  ~Emit \/ (/\ lab'.op \notin {"begin", "write", "commit", "crash"}
            /\ PrintT(ToJson([cap |-> cap, pos |-> pos, q |-> q, op |-> lab'.op, k |-> lab'.k, n |-> lab'.n,
                              i |-> lab'.i]))
            /\ FALSE)
=============================================================================
