-------------------------- MODULE FilterRecordTextMC -----------------------
(* The shown lines determine the records: no two lists of records look alike *)
(* (values of one type), and sections are generated for replay on the reader.*)
EXTENDS FilterRecordText, Json
CONSTANTS MaxRecs, Replay
SmallMagic == <<70, 73, 76, 84>>
VARIABLES recs, align, done
Names == {<<65>>, <<70, 73, 76, 84>>}
\* coefficients: single precision values, some of which hold the magic
Val == {<<0, 0, 0, 0>>, <<70, 73, 76, 84>>}
Coefs(s) == IF s = 0 THEN {v \o v \o w \o v \o w : v, w \in Val} ELSE {v \o w : v, w \in Val} \cup {v \o w \o w \o v : v, w \in Val}
Recs == UNION {{<<s, 0, nm, c>> : nm \in Names, c \in Coefs(s)} : s \in {0, 1}}
Init == recs \in UNION {[1 .. n -> Recs] : n \in 1 .. MaxRecs} /\ align \in {1, 8, 32} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<recs, align>> /\ (Replay => PrintT(ToJson([b |-> Emit(recs, align)])))
Spec == Init /\ [][Next]_<<recs, align, done>>
\* reading the bytes and showing them equals showing the records
Agrees == AllLines(Read(Emit(recs, align), 1, <<>>).recs) = AllLines([k \in 1 .. Len(recs) |-> Shown(recs[k])])
\* every coefficient is shown once, in its place
RECURSIVE ShownBytes(_, _)
ShownBytes(ls, i) == IF i > Len(ls) THEN <<>> ELSE IF ls[i][1] = "coef" THEN ls[i][3] \o ShownBytes(ls, i + 1) ELSE ShownBytes(ls, i + 1)
RECURSIVE CoefBytes(_)
CoefBytes(rs) == IF rs = <<>> THEN <<>> ELSE Head(rs)[4] \o CoefBytes(Tail(rs))
Complete == ShownBytes(AllLines(recs), 1) = CoefBytes(recs)
=============================================================================
