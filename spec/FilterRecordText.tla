--------------------------- MODULE FilterRecordText ------------------------
(* What the coefficient reader shows for a section: for every record a line  *)
(* with the name, then every coefficient with its place.  Lines are given as *)
(* tuples: <<"name", bytes>>, <<"stage", k>>, <<"coef", label, bytes>>.      *)
EXTENDS FilterRecord, TLC
SizeOf(t) == IF t = 0 THEN 4 ELSE 8
SosLabel == <<"b0", "b1", "b2", "a1", "a2">>
ValueAt(c, t, k) == At(c, (k - 1) * SizeOf(t) + 1, SizeOf(t))      \* k-th coefficient
RECURSIVE SosLines(_, _, _, _)
SosLines(c, t, s, n) ==
  IF s > n THEN <<>>
  ELSE <<<<"stage", s>>>> \o [k \in 1 .. 5 |-> <<"coef", SosLabel[k], ValueAt(c, t, 5 * (s - 1) + k)>>] \o SosLines(c, t, s + 1, n)
PolyLines(c, t, v, from, n) == [k \in 1 .. n |-> <<"coef", v \o "[" \o ToString(k - 1) \o "]", ValueAt(c, t, from + k)>>]
LinesOf(r) ==
  LET t == r[2] c == r[4] n == Len(c) \div SizeOf(t) IN
  <<<<"name", r[3]>>>> \o
  (IF r[1] = 0 THEN SosLines(c, t, 1, n \div 5) ELSE PolyLines(c, t, "b", 0, n \div 2) \o PolyLines(c, t, "a", n \div 2, n \div 2))
RECURSIVE AllLines(_)
AllLines(rs) == IF rs = <<>> THEN <<>> ELSE LinesOf(Head(rs)) \o AllLines(Tail(rs))
\* a name that was cut in the middle of a UTF-8 sequence ends in a replacement character instead of the incomplete bytes
Replacement == <<239, 191, 189>>
CutShort(nm) == {j \in 1 .. 3 : j <= Len(nm) /\ LET k == Len(nm) - j + 1 IN
                   /\ nm[k] >= (IF j = 1 THEN 192 ELSE IF j = 2 THEN 224 ELSE 240)
                   /\ \A i \in k + 1 .. Len(nm) : nm[i] \in 128 .. 191}
ShownName(nm) == LET c == CutShort(nm) IN
  IF c = {} THEN nm ELSE SubSeq(nm, 1, Len(nm) - (CHOOSE j \in c : TRUE)) \o Replacement
\* a logged line: values come as single and as double precision bytes
Shows(want, got) ==
  /\ want[1] = got[1]
  /\ CASE want[1] = "name" -> got[2] = ShownName(want[2])
       [] want[1] = "stage" -> want[2] = got[2]
       [] want[1] = "coef" -> want[2] = got[2] /\ (IF Len(want[3]) = 4 THEN want[3] = got[3] ELSE want[3] = got[4])
=============================================================================
