--------------------------- MODULE FilterRecordMC --------------------------
(* For all short lists of small records a reader gets back what was emitted. *)
EXTENDS FilterRecord
CONSTANTS MaxRecs, CoefLens, Aligns
SmallMagic == <<70, 73>>
VARIABLES recs, align
Chars == {5, 70}
Names == UNION {[1 .. n -> Chars] : n \in 0 .. NameLen + 1}
Coefs == UNION {[1 .. n -> {0, 70}] : n \in CoefLens}
Recs == {<<s, 1, nm, c>> : s \in {0, 1}, nm \in Names, c \in Coefs}
Init == recs \in UNION {[1 .. n -> Recs] : n \in 0 .. MaxRecs} /\ align \in Aligns
Next == UNCHANGED <<recs, align>>
Spec == Init /\ [][Next]_<<recs, align>>
RoundTrip == Read(Emit(recs, align), 1, <<>>) = [ok |-> TRUE, recs |-> [k \in 1 .. Len(recs) |-> Shown(recs[k])]]
\* a section cut short is noticed
Cut == LET b == Emit(recs, align) IN Len(b) > 0 => ~Read(SubSeq(b, 1, Len(b) - 1), 1, <<>>).ok
=============================================================================
