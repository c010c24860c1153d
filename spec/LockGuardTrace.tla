--------------------------- MODULE LockGuardTrace --------------------------
(* Validates a log of real guards on instrumented mutexes against LockGuard.*)
EXTENDS LockGuard, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<vars, l>>

TraceInit == l = 1 /\ Init

Reset == frames' = [t \in Threads |-> <<>>] /\ unw' = [t \in Threads |-> 0]
         /\ held' = [m \in Mutexes |-> [t |-> 0, n |-> 0]]
         /\ count' = [m \in Mutexes |-> [lock |-> 0, fail |-> 0, unlock |-> 0]]

Step(e) ==
  CASE e.op = "reset" -> Reset
    [] e.op = "open" -> Open(e.t, e.m, e.c)
    [] e.op = "lock" -> Ask(e.t, e.m)
    [] e.op = "acq" -> Grant(e.t, e.m)
    [] e.op = "nolock" -> Fail(e.t, e.m)
    [] e.op = "body" -> Body(e.t, e.m)
    [] e.op = "leave" -> Leave(e.t, e.k)
    [] e.op = "throw" -> Throw(e.t)
    [] e.op = "unlock" -> Release(e.t, e.m)
    \* back in the code around the scopes that were left
    [] e.op = "out" -> unw[e.t] = 0 /\ Depth(e.t) = e.d /\ UNCHANGED vars
    \* end of a session: everybody has left everything
    [] e.op = "done" -> /\ \A t \in Threads : Depth(t) = 0 /\ unw[t] = 0
                        /\ \A m \in Mutexes : held[m].n = 0
                        /\ UNCHANGED vars
    \* properties of the type: a guard must not be duplicated
    [] e.op = "type" -> e.cc = 0 /\ e.ca = 0 /\ UNCHANGED vars
    [] OTHER -> FALSE

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
             /\ Exclusion' /\ Exact' /\ Balanced' /\ Guarded'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
