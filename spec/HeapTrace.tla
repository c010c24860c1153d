------------------------------ MODULE HeapTrace ------------------------------
(* Recorded: what a part did, and the calls of the allocator meanwhile.      *)
EXTENDS Heap, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ <<e.p, e.n>> \in Chosen /\ e.taken = 0 /\ e.returned = 0 /\ e.done = 1
           /\ last' = <<e.p, e.n>> /\ UNCHANGED <<blocks, own>>
TInit == Init /\ l = 1
Spec == TInit /\ [][Next]_<<l, blocks, own, last>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
