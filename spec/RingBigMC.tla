------------------------------ MODULE RingBigMC ------------------------------
(* RingBig refines Ring, for all small capacities.                          *)
EXTENDS RingBig, TLC, FiniteSets

CONSTANT MaxCap

Token(x) == IF oa <= x /\ x < ob THEN (Tok(x) + 100) % 251 ELSE Tok(x)
Seq0 == [i \in 1 .. N |-> Token(lo + i - 1)]
Mem0 == [s \in 0 .. bcap - 1 |-> LET d == (s - First) % bcap IN IF d < N THEN Seq0[d + 1] ELSE 0 - 1]
R == INSTANCE Ring WITH cap <- bcap, pos <- First, len <- N, mem <- Mem0, q <- Seq0

Init == \E c \in 1 .. MaxCap : \E p \in 0 .. c - 1 : \E n \in 0 .. c :
          /\ bcap = c /\ lo = 0 /\ hi = n /\ off = p /\ oa = 0 /\ ob = 0
S == 0 .. bcap - 1
Next == \E k \in 0 .. MaxCap :
          \/ InsBack(k)
          \/ \E p \in S : InsFront(k, p) \/ RemBack(k, p) \/ RemFront(k, p)
          \/ \E i \in 0 .. N : OverIn(i, k)
          \/ OverOut
Spec == Init /\ [][Next]_bigvars
Window == lo >= 0 - 6 /\ hi <= 12

ToksOf(a, b) == [i \in 1 .. b - a |-> Tok(a + i - 1)]
Refines == [][
  LET P == {R!At(0, First')} IN
  CASE lo' = lo /\ hi' > hi -> R!InsertBack(ToksOf(hi, hi'))
    [] lo' < lo /\ hi' = hi -> R!InsertFront(ToksOf(lo', lo), P)
    [] lo' = lo /\ hi' < hi -> R!RemoveBack(hi - hi', P)
    [] lo' > lo /\ hi' = hi -> R!RemoveFront(lo' - lo, P)
    [] oa # ob -> R!Overwrite(oa - lo, ToksOf(oa, ob))
    [] oa' # ob' -> R!Overwrite(oa' - lo', SubSeq([i \in 1 .. N |-> (Tok(lo + i - 1) + 100) % 251], oa' - lo' + 1, ob' - lo'))
    [] N = 0 -> R!RemoveFront(0, P)
    [] OTHER -> R!Keep ]_bigvars

\* the runs describe the sequences
RECURSIVE Expand(_, _)
Expand(rs, m) == IF rs = <<>> THEN <<>> ELSE [i \in 1 .. rs[1][2] |-> (rs[1][1] + i - 1) % m] \o Expand(Tail(rs), m)
RunsRight == /\ Expand(Contents, 251) = Seq0
             /\ Expand(SlotRuns(lo, hi), bcap + 1) = [i \in 1 .. N |-> Slot(lo + i - 1)]
=============================================================================
