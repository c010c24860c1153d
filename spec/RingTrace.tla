------------------------------ MODULE RingTrace ------------------------------
(* Validates a log of calls on real circular_buffer_adapter objects against  *)
(* Ring.  Aspects selects which observations are compared:                   *)
(*   deque  results and contents            place  slots, memory image       *)
(*   still  nothing is copied or moved around                                *)
(*   life   lifetime ledger, value category fault  failed insertions         *)
(*   iter   iterator tables                 bulk   bulk copy results         *)
EXTENDS Ring, TLC, Json, IOUtils, SequencesExt

CONSTANT Aspects

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,       \* next line of the trace
          kind,    \* class of the element type: triv, ro, full, copyonly, moveonly
          pq       \* contents before the last operation

tvars == <<cap, pos, len, mem, q, l, kind, pq>>

Has(a) == a \in Aspects
B(x) == IF x THEN 1 ELSE 0
RangeOf(s) == { s[i] : i \in 1 .. Len(s) }
Where(e) == IF Has("place") THEN {e.p} \cap Slots ELSE {0}

TraceInit ==
  /\ l = 1
  /\ kind = "triv"
  /\ pq = <<>>
  /\ cap = 1 /\ pos = 0 /\ len = 0 /\ mem = [s \in {0} |-> Dead] /\ q = <<>>

Sorted(s) == SortSeq(s, <)
Rev(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Rot(s, n) == SubSeq(s, n + 1, Len(s)) \o SubSeq(s, 1, n)

\* ------------------------------------------------------------------ the call
NewValue(e) == IF e.k = "a" THEN q[e.v + 1] ELSE e.v

Call(e) ==
  CASE e.op = "new"   -> Attach(e.cap, e.pos, e.v)
    [] e.op = "pushb" -> PushBack(NewValue(e))
    [] e.op = "pushf" -> PushFront(NewValue(e), Where(e))
    [] e.op \in {"failb", "failf"} -> FailedInsert
    [] e.op = "popb"  -> PopBack(Where(e))
    [] e.op = "popf"  -> PopFront(Where(e))
    [] e.op = "popbn" -> PopBackN(e.n, Where(e))
    [] e.op = "popfn" -> PopFrontN(e.n, Where(e))
    [] e.op = "clear" -> Clear(Where(e))
    [] e.op = "set"   -> Assign(e.i, e.v)
    [] e.op = "cinb"  -> CopyInBack(e.v)
    [] e.op = "cinf"  -> CopyInFront(e.v, Where(e))
    [] e.op = "coutb" -> CopyOutBack(e.n, Where(e))
    [] e.op = "coutf" -> CopyOutFront(e.n, Where(e))
    [] e.op = "cinr"  -> CopyInRange(e.i, e.v)
    [] e.op = "coutr" -> CopyOutRange(e.i, e.n)
    [] e.op = "algo"  -> Overwrite(0, CASE e.k = "reverse" -> Rev(q)
                                        [] e.k \in {"sort", "stable"} -> Sorted(q)
                                        [] e.k = "rsort" -> Rev(Sorted(q))
                                        [] e.k = "rotate" -> Rot(q, e.n))
    [] e.op = "reattach" -> Reattach
    [] e.op = "move"     -> MoveAdapter
    [] e.op \in {"at", "itall", "obs", "image", "zero"} -> Read

\* ------------------------------------------------------------------ results
Sentinels == <<111, 111>>

ResultOK(e) ==
  /\ Has("deque") =>
       /\ (e.op \in {"pushb", "pushf"}) => /\ e.r # -3
                                           /\ e.k = "e" => e.r = e.v
                                           /\ e.k = "a" => e.r = NewValue(e)
       \* adapters of capacity zero, all answers repeated: no element, yet full
       /\ (e.op = "zero") => /\ Len(e.r) >= 72
                             /\ e.r = [x \in 1 .. Len(e.r) |-> <<0, 1, 1, 0, 0, 1, 1, 0, 1>>[1 + ((x - 1) % 9)]]
       /\ (e.op = "at") => IF e.i < len THEN e.x = 0 /\ e.r = q[e.i + 1] ELSE e.x = 1
  /\ Has("life") =>
       /\ (e.op \in {"pushb", "pushf"} /\ e.k \in {"c", "l"}) => e.r = e.v
       /\ (e.op \in {"pushb", "pushf"} /\ e.k \in {"m", "x"}) =>
             e.r = (IF kind \in {"full", "moveonly"} THEN 0 ELSE e.v)
  /\ Has("fault") =>
       /\ (e.op \in {"failb", "failf"}) => e.r = 1
  /\ Has("bulk") =>
       /\ (e.op \in {"cinb", "cinf", "cinr"}) => e.r = e.v
       /\ (e.op = "coutb") => e.r = Sentinels \o SubSeq(q, len - e.n + 1, len) \o Sentinels
       /\ (e.op = "coutf") => e.r = Sentinels \o SubSeq(q, 1, e.n) \o Sentinels
       /\ (e.op = "coutr") => e.r = Sentinels \o SubSeq(q, e.i + 1, e.i + e.n) \o Sentinels
  \* e.m: contents re-attached after every single instruction of the insertion
  /\ (e.op = "image") => e.r = pq /\ \A i \in 1 .. Len(e.m) : e.m[i] = pq

\* ------------------------------------------------------------------ iterators
Val(s, i) == IF i < Len(s) THEN s[i + 1] ELSE -1
WalkFrom(s, i) ==
  LET n == Len(s)
  IN <<i, n - i, 1, Val(s, i)>> \o
     FlattenSeq([k \in 1 .. n + 1 |-> <<1, k - 1 - i, Val(s, k - 1), Val(s, k - 1)>>])
Walk(s) ==
  LET n == Len(s)
  IN FlattenSeq([i \in 1 .. n + 1 |-> WalkFrom(s, i - 1)]) \o
     [i \in 1 .. 3 * n |-> 1] \o <<1, 1, n>>
Bits(i, k) == (IF i = k THEN 1 ELSE 2) + (IF i < k THEN 4 ELSE 0) + (IF i > k THEN 8 ELSE 0)
              + (IF i <= k THEN 16 ELSE 0) + (IF i >= k THEN 32 ELSE 0)
Pairs(n) ==
  [x \in 1 .. 6 * (n + 1) * (n + 1) |->
     LET y == (x - 1) \div 6 IN Bits(y \div (n + 1), y % (n + 1))]

IterOK(e) ==
  (Has("iter") /\ e.op = "itall") =>
     /\ e.mm = Walk(q)
     /\ e.cc = Walk(q)
     /\ e.rr = Walk(Rev(q))
     /\ e.kk = Walk(Rev(q))
     /\ e.pair = Pairs(len)
     /\ e.ex = [x \in 1 .. (len + 1) + (len + 1) * (len + 2) + 2 * len |-> 1]

RawIndexOK(e) ==
  (Has("place") /\ e.op = "itall") =>
     e.ri = [x \in 1 .. 2 * (len + 1) |-> At(pos, (x - 1) \div 2)]

\* ------------------------------------------------------------------ state after the call
DequeOK(e) ==
  Has("deque") =>
     /\ e.s = <<len', B(len' = 0), B(len' = cap'), cap', cap' - len'>>
     /\ e.c = q'
     /\ e.t = q'
     /\ e.u = q'
     /\ e.fb = IF len' = 0 THEN <<>> ELSE <<q'[1], q'[len']>>

LiveP == { (pos' + i) % cap' : i \in 0 .. len' - 1 }
Touchable(e) ==
  IF e.op = "new" THEN {}
  ELSE (Live(pos, len) \ LiveP) \cup (LiveP \ Live(pos, len)) \cup
       (IF e.op = "set" THEN {At(pos, e.i)} ELSE {}) \cup
       (IF e.op = "cinr" THEN { At(pos, e.i + j) : j \in 0 .. e.n - 1 } ELSE {}) \cup
       (IF e.op = "algo" THEN Live(pos, len) ELSE {}) \cup
       \* a failed insertion may have scribbled on the free slot next to the elements
       (IF e.op = "failb" THEN {At(pos, len)} ELSE {}) \cup
       (IF e.op = "failf" THEN IF len = 0 THEN Slots ELSE {At(pos, cap - 1)} ELSE {})

PlaceOK(e) ==
  Has("place") =>
     /\ e.p = pos'
     /\ e.e = (pos' + len') % cap'
     /\ e.sl = [i \in 1 .. len' |-> (pos' + i - 1) % cap']
     /\ RangeOf(e.w) \subseteq Touchable(e)
     /\ e.g = 1
     /\ e.same = 1

Tracked == kind \in {"full", "copyonly", "moveonly"}
Inserts(e) == e.op \in {"pushb", "pushf"}

StillOK(e) ==
  (Has("still") /\ Tracked /\ e.op \notin {"set", "algo", "new"}) =>
     /\ e.ct[1] + e.ct[2] + e.ct[3] = B(Inserts(e))
     /\ e.ct[4] = 0

\* objects constructed by the call: <<from arguments, by copy, by move>>
Constructed(e) ==
  IF ~Inserts(e) THEN <<0, 0, 0>>
  ELSE CASE e.k = "e" -> <<1, 0, 0>>
         [] e.k \in {"c", "l", "a"} -> <<0, 1, 0>>
         [] e.k \in {"m", "x"} -> IF kind = "copyonly" THEN <<0, 1, 0>> ELSE <<0, 0, 1>>
Destroyed(e) == IF e.op \in {"popb", "popf", "popbn", "popfn", "clear"} THEN len - len' ELSE 0

LifeOK(e) ==
  (Has("life") /\ kind' \in {"full", "copyonly", "moveonly"}) =>
     /\ e.ln = len'
     /\ e.lo = 0
     /\ e.la = 1
     /\ e.le = 0
     /\ (e.op \notin {"set", "algo", "new"}) =>
           /\ SubSeq(e.ct, 1, 3) = Constructed(e)
           /\ e.ct[4] = 0
           /\ e.ct[5] = Destroyed(e)

Step(e) ==
  /\ e.op # "new" => ResultOK(e) /\ IterOK(e) /\ RawIndexOK(e)
  /\ Call(e)
  /\ kind' = IF e.op = "new" THEN e.k ELSE kind
  /\ pq' = IF e.op \in {"image"} THEN pq ELSE q
  /\ DequeOK(e)
  /\ PlaceOK(e)
  /\ StillOK(e)
  /\ LifeOK(e)
  \* the specification's own invariants, in every state of every real history
  /\ [i \in 1 .. len' |-> mem'[(pos' + i - 1) % cap']] = q'

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
