----------------------------- MODULE VarintMC -----------------------------
(* A writer appends values of mixed types to a stream of groups, a reader   *)
(* takes them out one group at a time, as the decoder does.  Exhaustive for *)
(* small groups and widths; the definitions are the ones used for G = 7.    *)
EXTENDS Varint, TLC

CONSTANTS Widths, MaxValues

VARIABLES stream,     \* groups written and not yet read
          sent,       \* values written: <<width, signed, bits>>
          got,        \* values read
          acc         \* groups of the value being read

vars == <<stream, sent, got, acc>>

BitVecs(w) == [0 .. w - 1 -> {0, 1}]
Init == stream = <<>> /\ sent = <<>> /\ got = <<>> /\ acc = <<>>

Write ==
  /\ Len(sent) < MaxValues
  /\ \E w \in Widths : \E sg \in BOOLEAN : \E b \in BitVecs(w) :
       /\ stream' = stream \o Encode(b, w, sg)
       /\ sent' = Append(sent, <<w, sg, b>>)
  /\ UNCHANGED <<got, acc>>

ReadGroup ==
  /\ stream # <<>>
  /\ stream' = Tail(stream)
  /\ LET a == Append(acc, Head(stream))
         t == sent[Len(got) + 1]
     IN IF Head(stream) >= Flag
        THEN acc' = a /\ UNCHANGED got
        ELSE /\ acc' = <<>>
             /\ got' = Append(got, <<t[1], t[2], Decoded(a, t[1], t[2])>>)
  /\ UNCHANGED sent

Next == Write \/ ReadGroup
Spec == Init /\ [][Next]_vars

\* what was read is a prefix of what was written, also in the middle of a value
Faithful == \A i \in 1 .. Len(got) : got[i] = sent[i]
Drained == stream = <<>> => Len(got) = Len(sent) /\ acc = <<>>
Bounded == Len(acc) < MaxGroups(CHOOSE w \in Widths : \A x \in Widths : x <= w) + 1

\* ------------------------------------------------------------- facts about the definitions, by evaluation
RECURSIVE Num(_, _)
Num(b, w) == IF w = 0 THEN 0 ELSE Num(b, w - 1) + b[w - 1] * 2 ^ (w - 1)
Signed(b, w) == Num(b, w) - (IF b[w - 1] = 1 THEN 2 ^ w ELSE 0)

FactWidths == 1 .. 6
\* the fold is the arithmetic one and a bijection
ASSUME \A w \in FactWidths : \A b \in BitVecs(w) :
  /\ Num(Fold(b, w), w) = (IF Signed(b, w) >= 0 THEN 2 * Signed(b, w) ELSE -2 * Signed(b, w) - 1)
  /\ Unfold(Fold(b, w), w) = b
  /\ Fold(Unfold(b, w), w) = b
\* encodings are minimal: no other string decodes to the value with fewer groups, and the last group is not zero unless alone
ASSUME \A w \in FactWidths : \A b \in BitVecs(w) :
  LET e == EncodeBits(b, w)
  IN /\ Len(e) = 1 \/ e[Len(e)] # 0
     /\ Len(e) <= MaxGroups(w)
     /\ Decodes(e, w) /\ Used(e) = Len(e) /\ Decoded(e, w, FALSE) = b
     /\ \A x \in {0, 1, Flag, 2 * Flag - 1} : Decodes(Append(e, x), w) /\ Decoded(Append(e, x), w, FALSE) = b
     /\ \A w2 \in w .. 7 : \A sg \in BOOLEAN :
          LET f == Encode(b, w, sg) IN Decodes(f, w2) /\ Decoded(f, w2, sg) = Widen(b, w, w2, sg)
\* decoding of every string agrees with arithmetic
Strings == UNION { [1 .. n -> 0 .. 2 * Flag - 1] : n \in 0 .. 3 }
RECURSIVE Val(_, _)
Val(s, k) == IF k = 0 THEN 0 ELSE Val(s, k - 1) + (s[k] % Flag) * 2 ^ (G * (k - 1))
ASSUME \A s \in Strings : \A w \in 1 .. 5 :
  LET k == Ends(s, 1)
  IN Decodes(s, w) <=> /\ k > 0 /\ k <= MaxGroups(w) /\ Val(s, k) < 2 ^ w
=============================================================================
