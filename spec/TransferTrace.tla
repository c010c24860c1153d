---------------------------- MODULE TransferTrace --------------------------
(* Validates logged coefficients of filter forms built from zero/pole/gain   *)
(* descriptions with (scaled) Gaussian integer roots; those with e.mod > 0 as residues.   *)
EXTENDS Transfer, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(e) ==
  IF e.mod > 0 THEN
       IF e.form = 0 THEN SinglePolyM(e.z, e.p, e.k, e.c, e.mod)
       ELSE SectionsM(e.z, e.p, e.k, e.c, e.mod) /\ (IF e.form = 2 THEN Spread(e.k, e.c) ELSE FirstSection(e.k, e.c))
  ELSE
  CASE e.form = 0 -> SinglePoly(e.z, e.p, e.k, e.c)
    [] e.form \in {1, 3} -> Sections(e.z, e.p, e.k, e.c) /\ FirstSection(e.k, e.c)
    [] e.form = 2 -> Sections(e.z, e.p, e.k, e.c) /\ Spread(e.k, e.c)
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
