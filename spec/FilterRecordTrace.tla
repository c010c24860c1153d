-------------------------- MODULE FilterRecordTrace ------------------------
(* Validates the bytes of real sections.  An event holds the section and the *)
(* records that were emitted: structure, value type, name, coefficients in   *)
(* order, each as its bytes (of long double the 10 that carry the value).    *)
EXTENDS FilterRecord, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
FILT == <<70, 73, 76, 84>>
VARIABLE l
Size(t) == CASE t = 0 -> 4 [] t = 1 -> 8 [] t = 2 -> 16
Used(t) == IF t = 2 THEN 10 ELSE Size(t)
SplitOK(c, t, vals) == /\ Len(c) = Len(vals) * Size(t)
                       /\ \A k \in 1 .. Len(vals) : At(c, (k - 1) * Size(t) + 1, Used(t)) = vals[k]
Matches(got, e) == /\ got[1] = e.s /\ got[2] = e.t
                   /\ got[3] = CutZero(Padded(e.name), 1)
                   /\ SplitOK(got[4], e.t, e.v)
Step(e) == LET rd == Read(e.bytes, 1, <<>>) g == rd.recs IN
  /\ rd.ok
  /\ Len(g) = Len(e.recs)
  \* the order of the records in the section is the compiler's business
  /\ \A k \in 1 .. Len(e.recs) : \E i \in 1 .. Len(g) : Matches(g[i], e.recs[k])
  /\ \A i \in 1 .. Len(g) : \E k \in 1 .. Len(e.recs) : Matches(g[i], e.recs[k])
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
