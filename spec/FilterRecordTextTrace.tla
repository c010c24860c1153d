------------------------- MODULE FilterRecordTextTrace ---------------------
(* Validates what the reader printed for a section.                          *)
EXTENDS FilterRecordText, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FILT == <<70, 73, 76, 84>>
VARIABLE l
Step(e) == LET rd == Read(e.bytes, 1, <<>>) want == AllLines(rd.recs) IN
  /\ rd.ok
  /\ Len(want) = Len(e.lines)
  /\ \A k \in 1 .. Len(want) : Shows(want[k], e.lines[k])
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
