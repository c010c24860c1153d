----------------------------- MODULE VarintGen -----------------------------
(* Emits test inputs from the model: byte strings, and the lengths of the   *)
(* encodings of boundary values for compile-time comparison.                *)
EXTENDS Varint, TLC, Json

CONSTANT Depth

Alphabet == {0, 1, 2, 3, 15, 63, 64, 127, 128, 129, 130, 131, 192, 255}
Short == UNION { [1 .. n -> Alphabet] : n \in 0 .. Depth }
Fill(n, f) == [i \in 1 .. n |-> f]
Long == { Fill(n, f) \o m \o <<z>> : n \in 0 .. 11, f \in {128, 255, 129}, m \in {<<>>, <<128>>, <<255>>},
          z \in {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127} }
Cut == { Fill(n, f) : n \in 1 .. 13, f \in {128, 255, 129} }
Tails == { <<>>, <<0>>, <<127, 255>>, <<200>> }

\* 2^k and its neighbours, as bit vectors of width w
Pow(w, k) == [i \in 0 .. w - 1 |-> IF i = k THEN 1 ELSE 0]
Low(w, k) == [i \in 0 .. w - 1 |-> IF i < k THEN 1 ELSE 0]
High(w, k) == [i \in 0 .. w - 1 |-> IF i < k THEN 0 ELSE 1]
PowOne(w, k) == [i \in 0 .. w - 1 |-> IF i = k \/ i = 0 THEN 1 ELSE 0]
Edge(w) == { Pow(w, k) : k \in 0 .. w - 1 } \cup { Low(w, k) : k \in 0 .. w } \cup
           { High(w, k) : k \in 0 .. w - 1 } \cup { PowOne(w, k) : k \in 0 .. w - 1 }
SeqOf(b, w) == [i \in 1 .. w |-> b[i - 1]]

VARIABLE done
Init == done = FALSE
Next ==
  /\ ~done /\ done' = TRUE
  /\ \A s \in Short \cup Long \cup Cut : PrintT(ToJson([op |-> "dec", b |-> s]))
  /\ \A s \in { x \o t : x \in Long, t \in Tails } : PrintT(ToJson([op |-> "dec", b |-> s]))
  /\ \A w \in {8, 16, 32, 64} : \A sg \in BOOLEAN : \A b \in Edge(w) :
       PrintT(ToJson([op |-> "edge", w |-> w, s |-> sg, b |-> SeqOf(b, w), n |-> Len(Encode(b, w, sg))]))
Spec == Init /\ [][Next]_done
=============================================================================
