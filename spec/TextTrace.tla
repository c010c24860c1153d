------------------------------ MODULE TextTrace ----------------------------
(* Validates printed values: e.v printed after e.pre and before e.post.      *)
EXTENDS Text, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) == /\ e.text = e.pre \o Show(e.v) \o e.post
           /\ e.same = 1                     \* the stream itself is returned
           /\ e.kept = 1                     \* its formatting state is as before, except for a spent width
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
