-------------------------- MODULE MoveWrapperTrace -------------------------
EXTENDS MoveWrapper, TLC, Json, IOUtils
CONSTANT Plain     \* payload type without a visible moved-from state

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>
TraceInit == l = 1 /\ Init

Do(e) ==
  CASE e.op = "reset" -> val' = [s \in Slots |-> None] /\ lost' = {}
    [] e.op = "make" -> Make(e.d, e.v)
    [] e.op \in {"cp", "ccp", "mv", "cmv", "byval", "cap", "fn"} -> Transfer(e.d, e.v)
    [] e.op = "tmake" -> Refused(e.d)
    [] e.op \in {"tcp", "tmv", "tcap"} -> Full(e.v) /\ Refused(e.d)
    [] e.op = "set" -> Write(e.d, e.v)
    [] e.op = "get" -> Read(e.d)
    [] e.op = "del" -> Destroy(e.d)
    [] OTHER -> FALSE

Throws(e) == e.op \in {"tmake", "tcp", "tmv", "tcap"}

\* what is seen in each place
Seen(e) == \A s \in Slots :
  LET x == e.val[s + 1] IN
    IF val'[s] = Gone /\ Plain THEN x # None ELSE x = val'[s]

Step(e) ==
  /\ Do(e)
  /\ Seen(e)
  /\ e.copies = 0
  /\ e.err = 0
  \* instances of the payload: one per instance of a wrapper or closure, none besides (-1: not counted);
  \* places 6 and 7 are functions, which are empty when their closure was moved on
  /\ e.live = -1 \/ LET all == {s \in Slots : val'[s] # None}
                        sure == {s \in all : s < 6 \/ val'[s] # Gone}
                    IN e.live >= Cardinality(sure) /\ e.live <= Cardinality(all)
  /\ e.threw = (IF Throws(e) THEN 1 ELSE 0)
  \* a payload that could not be moved stays where it was
  /\ (e.op = "tmake") => e.left = e.v
  /\ (e.op = "make" /\ ~Plain) => e.left = Gone
  \* access gives the payload itself: both operators, mutable or not, the same object of the right type
  /\ e.acc = 1

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l]) /\ Unique'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
