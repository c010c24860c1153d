---------------------------- MODULE RingBigTrace ----------------------------
(* Validates logs of real circular buffers of large capacity against        *)
(* RingBig.  Aspects as in RingTrace: deque, place, life, iter, bulk.       *)
EXTENDS RingBig, TLC, Json, IOUtils

CONSTANT Aspects
Has(a) == a \in Aspects
B(x) == IF x THEN 1 ELSE 0

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kind
tvars == <<bcap, lo, hi, off, oa, ob, l, kind>>

TraceInit == l = 1 /\ kind = "triv" /\ bcap = 1 /\ lo = 0 /\ hi = 0 /\ off = 0 /\ oa = 0 /\ ob = 0

Where(e) == IF Has("place") THEN e.p ELSE 0
Call(e) ==
  CASE e.op = "new"    -> New(e.cap, e.pos, e.k)
    [] e.op \in {"pushb", "cinb"} -> InsBack(e.k)
    [] e.op \in {"pushf", "cinf"} -> InsFront(e.k, Where(e))
    [] e.op \in {"popb", "popbn", "coutb"} -> RemBack(e.k, Where(e))
    [] e.op \in {"popf", "popfn", "coutf"} -> RemFront(e.k, Where(e))
    [] e.op = "clear"  -> RemFront(N, Where(e))
    [] e.op = "over"   -> OverIn(e.i, e.k)
    [] e.op = "unover" -> OverOut
    [] e.op \in {"outr", "reattach"} -> Same

\* what a copy out delivers (the buffer carries no overwritten elements then)
Delivered(e) ==
  CASE e.op = "coutb" -> RangeOf(hi - e.k, hi)
    [] e.op = "coutf" -> RangeOf(lo, lo + e.k)
    [] e.op = "outr"  -> RangeOf(lo + e.i, lo + e.i + e.k)
    [] OTHER -> <<>>

TokenAt(x) == IF oa' <= x /\ x < ob' THEN (Tok(x) + 100) % 251 ELSE Tok(x)
N1 == hi' - lo'

DequeOK(e) ==
  Has("deque") =>
    /\ e.s = <<N1, B(N1 = 0), B(N1 = bcap'), bcap', bcap' - N1>>
    /\ e.c = Contents'
    /\ e.t = Contents'
    /\ e.u = Contents'
    /\ e.v = Contents'
    /\ e.fb = IF N1 = 0 THEN <<>> ELSE <<TokenAt(lo'), TokenAt(hi' - 1)>>
    /\ e.op # "new" => e.r = Delivered(e)

\* slots an operation may write: those of the elements it adds, removes or overwrites
Touched(e) ==
  CASE e.op = "new" -> <<>>
    [] e.op = "over"   -> SlotR(bcap, off, oa', ob')
    [] e.op = "unover" -> SlotR(bcap, off, oa, ob)
    [] lo' < lo -> SlotR(bcap, off', lo', lo)
    [] hi' > hi -> SlotR(bcap, off', hi, hi')
    [] lo' > lo -> SlotR(bcap, off, lo, lo')
    [] hi' < hi -> SlotR(bcap, off, hi', hi)
    [] OTHER -> <<>>
Inside(w, ts) == \/ Len(ts) = 2 /\ ts[1][2] + ts[2][2] = bcap     \* all slots
                 \/ \E i \in 1 .. Len(ts) : w[1] >= ts[i][1] /\ w[1] + w[2] <= ts[i][1] + ts[i][2]

PlaceOK(e) ==
  Has("place") =>
    /\ e.p = First'
    /\ e.e = (Slot(hi))'
    /\ e.sl = SlotRuns(lo, hi)'
    /\ e.g = 1
    /\ \A i \in 1 .. Len(e.w) : Inside(e.w[i], Touched(e))

IterOK(e) ==
  Has("iter") =>
    \A k \in 1 .. Len(e.ra) :
      LET x == e.ra[k] i == x[1] v == IF i < N1 THEN TokenAt(lo' + i) ELSE 0 - 1 IN
        /\ x[2] = v /\ x[3] = v /\ x[4] = v
        /\ x[5] = i /\ x[6] = N1 - i /\ x[7] = i /\ x[8] = 1
        /\ Has("place") => x[9] = (lo' + i + off') % bcap'
        /\ x[10] = B(0 < i) + 2 * B(i < N1) + 4 + 8 * B(i >= N1)

LifeOK(e) ==
  (Has("life") /\ kind' = "tracked") =>
    /\ e.le = 0
    /\ (e.op # "new") => \* pushes construct the argument and the element, and destroy the argument
         /\ e.ct[1] - e.ct[2] = N1 - N
         /\ (e.op \in {"popb", "popf", "popbn", "popfn", "clear", "reattach"}) => e.ct[1] = 0
         /\ e.ct[3] = 0

Step(e) ==
  /\ Call(e)
  /\ kind' = IF e.op = "new" THEN e.y ELSE kind
  /\ DequeOK(e) /\ PlaceOK(e) /\ IterOK(e) /\ LifeOK(e)
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
