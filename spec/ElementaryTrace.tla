--------------------------- MODULE ElementaryTrace ---------------------------
(* Results computed by the real functions, at compile time and at run time.  *)
EXTENDS Elementary, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN e.r # <<>> /\ Right(e.op, e.a, e.b, e.t, e.r)
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
