----------------------------- MODULE FilterTrace ---------------------------
(* Validates logs of real filter instances.                                  *)
(*   design d c: the published coefficients of design d (again, later: the   *)
(*   same);  new i d;  copy i j;  feed i x y                                 *)
EXTENDS Filter, TLC, Json, IOUtils
CONSTANTS Sections            \* TRUE: stages have the section form
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, designs, inst
vars == <<l, designs, inst>>
WellFormed(c) == /\ Len(c) >= 1
                 /\ \A s \in 1 .. Len(c) : /\ Len(c[s][1]) = Len(c[s][2]) /\ R(c[s][2][1]) = 1
                                           /\ Sections => Len(c[s][1]) = 3
                                           /\ ~Sections => Len(c) = 1
TraceInit == l = 1 /\ designs = <<>> /\ inst = <<>>
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Step(e) ==
  CASE e.op = "design" -> /\ WellFormed(e.c)
                          /\ IF e.d \in DOMAIN designs THEN designs[e.d] = e.c /\ UNCHANGED designs ELSE designs' = Put(designs, e.d, e.c)
                          /\ UNCHANGED inst
    [] e.op = "new" -> inst' = Put(inst, e.i, <<e.d, Fresh(designs[e.d])>>) /\ UNCHANGED designs
    [] e.op = "copy" -> inst' = Put(inst, e.i, inst[e.j]) /\ UNCHANGED designs
    [] e.op = "feed" -> LET r == Feed(designs[inst[e.i][1]], inst[e.i][2], e.x) IN
                          /\ r[1] = e.y /\ inst' = [inst EXCEPT ![e.i][2] = r[2]] /\ UNCHANGED designs
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
