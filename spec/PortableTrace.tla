---------------------------- MODULE PortableTrace ----------------------------
(* What a program of several units answered: each unit in turn, everything   *)
(* it has to have is used, and answers what it has to.                       *)
EXTENDS Portable, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, inc, used
vars == <<l, inc, used>>
Init == l = 1 /\ inc = {} /\ used = {}
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ LET e == Trace[l] IN
     CASE e.k = "include" -> /\ e.h \in Names /\ Requires(e.h) \subseteq inc /\ used = {}
                             /\ inc' = inc \cup {e.h} /\ UNCHANGED used
       [] e.k = "use" -> /\ e.f \in Have(inc) /\ e.ans = Answer(e.f, e.conf)
                         /\ used' = used \cup {e.f} /\ UNCHANGED inc
       [] e.k = "close" -> /\ used = Have(inc) /\ inc' = {} /\ used' = {}
Spec == Init /\ [][Next]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
