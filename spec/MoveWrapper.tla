---------------------------- MODULE MoveWrapper ----------------------------
(* Wrappers that carry one payload each.  Copying a wrapper, or a closure   *)
(* that captured one, moves the payload to the new instance.                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots        \* places for wrappers and closures

None == -1             \* no instance in this place
Gone == -2             \* an instance whose payload was moved on

VARIABLES
  val,     \* place -> payload value, Gone or None
  lost     \* payload values that were destroyed with their instance (bookkeeping)
vars == <<val, lost>>

Init == val = [s \in Slots |-> None] /\ lost = {}

Alive(s) == val[s] # None
Full(s) == val[s] >= 0

\* a payload outside becomes the payload of a new wrapper
Make(s, v) ==
  /\ ~Alive(s) /\ v >= 0
  /\ val' = [val EXCEPT ![s] = v]
  /\ UNCHANGED lost

\* a new instance made from s, in whatever way: the payload goes to the newest
Transfer(d, s) ==
  /\ ~Alive(d) /\ Alive(s) /\ d # s
  /\ val' = [val EXCEPT ![d] = val[s], ![s] = Gone]
  /\ UNCHANGED lost

\* moving the payload throws: there is no new instance, everything else stays
Refused(d) == ~Alive(d) /\ UNCHANGED vars

Write(s, v) ==
  /\ Full(s) /\ v >= 0
  /\ val' = [val EXCEPT ![s] = v]
  /\ UNCHANGED lost

Read(s) == Alive(s) /\ UNCHANGED vars

Destroy(s) ==
  /\ Alive(s)
  /\ val' = [val EXCEPT ![s] = None]
  /\ lost' = IF Full(s) THEN lost \cup {val[s]} ELSE lost

----------------------------------------------------------------------------
\* with pairwise different payloads made, no payload is ever in two places
Unique == \A s, t \in Slots : (s # t /\ Full(s)) => val[s] # val[t]
\* a payload that is in no place was destroyed there
Holders == {s \in Slots : Full(s)}
=============================================================================
