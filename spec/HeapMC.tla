------------------------------- MODULE HeapMC --------------------------------
EXTENDS Heap, Json, TLC
CONSTANTS Blocks, Emit
Next == IF Emit THEN /\ last = <<>> /\ last' = <<"emitted", 0>> /\ UNCHANGED <<blocks, own>>
                     /\ \A r \in Chosen : PrintT(ToJson(r))
        ELSE \/ \E b \in Blocks : Obtain(b) \/ Return(b)
             \/ \E r \in Chosen : Step(r[1], r[2])
Spec == Init /\ [][Next]_vars
=============================================================================
