------------------------------- MODULE RingBig -------------------------------
(* The circular buffer for capacities far beyond what Ring can enumerate.   *)
(* All elements ever stored carry consecutive numbers: the contents are the *)
(* numbers lo .. hi-1 (token: number modulo 251), except that those in      *)
(* [oa, ob) have been overwritten (token plus 100).  Element x lies in slot *)
(* (x + off) modulo the capacity.  RingBigMC checks that this refines Ring. *)
(* Sequences of tokens and slots are described by runs: <<start, length>>.  *)
EXTENDS Integers, Sequences

VARIABLES bcap, lo, hi, off, oa, ob
bigvars == <<bcap, lo, hi, off, oa, ob>>

Tok(x) == x % 251
N == hi - lo
Slot(x) == (x + off) % bcap
First == Slot(lo)

\* runs of consecutive tokens / slots
NonEmpty(rs) == SelectSeq(rs, LAMBDA r : r[2] > 0)
TokRuns(a, b) == IF a >= b THEN <<>> ELSE <<<<Tok(a), b - a>>>>
Contents ==
  IF oa = ob THEN TokRuns(lo, hi)
  ELSE NonEmpty(TokRuns(lo, oa) \o <<<<(Tok(oa) + 100) % 251, ob - oa>>>> \o TokRuns(ob, hi))
RangeOf(a, b) == NonEmpty(TokRuns(a, b))

\* slots of elements a .. b-1, as runs
SlotR(c, o, a, b) ==         \* with capacity c and offset o
  IF a >= b THEN <<>>
  ELSE LET s == (a + o) % c n == b - a
       IN IF s + n <= c THEN <<<<s, n>>>> ELSE <<<<s, c - s>>, <<0, n - (c - s)>>>>
SlotRuns(a, b) == SlotR(bcap, off, a, b)

NoOver == oa = ob
Over(a, b) == oa' = a /\ ob' = b
Fresh(x) == Over(x, x)

New(c, p, n) == /\ bcap' = c /\ lo' = 0 /\ hi' = n /\ off' = p /\ Fresh(0)
\* when the buffer is or becomes empty its position is anybody's choice: at slot p
Park(p) == off' = (p - lo') % bcap
InsBack(k)     == /\ NoOver /\ N + k <= bcap /\ hi' = hi + k /\ UNCHANGED <<bcap, lo, off>> /\ Fresh(lo')
InsFront(k, p) == /\ NoOver /\ N + k <= bcap /\ lo' = lo - k /\ UNCHANGED <<bcap, hi>> /\ Fresh(lo')
                  /\ IF N = 0 THEN Park(p) ELSE UNCHANGED off
RemBack(k, p)  == /\ NoOver /\ k <= N /\ hi' = hi - k /\ UNCHANGED <<bcap, lo>> /\ Fresh(lo')
                  /\ IF k = N THEN Park(p) ELSE UNCHANGED off
RemFront(k, p) == /\ NoOver /\ k <= N /\ lo' = lo + k /\ UNCHANGED <<bcap, hi>> /\ Fresh(lo')
                  /\ IF k = N THEN Park(p) ELSE UNCHANGED off
OverIn(i, k)   == /\ NoOver /\ i + k <= N /\ Over(lo + i, lo + i + k) /\ UNCHANGED <<bcap, lo, hi, off>>
OverOut        == /\ Fresh(lo) /\ UNCHANGED <<bcap, lo, hi, off>>
Same           == UNCHANGED bigvars
=============================================================================
