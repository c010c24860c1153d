----------------------------- MODULE PortableMC ------------------------------
(* All include sequences up to a length: what a unit has afterwards does not *)
(* depend on the order or on repetitions, and grows.  Emits the programs.    *)
EXTENDS Portable, Json, TLC
CONSTANTS MaxInc, Some, Emit
VARIABLES inc, have, defined
vars == <<inc, have, defined>>
Chosen == IF Some THEN UNION { {"config.h", "type_traits.h", "type_traits/conjunction.h", "fpm/fixed.hpp"}, UNION UNION { Needs[f] : f \in {"butter", "record", "text", "sectiontext"} } } ELSE Names
Range(s) == { s[i] : i \in DOMAIN s }
Init == inc = <<>> /\ have = {} /\ defined = {}
Include(h) ==
  /\ Len(inc) < MaxInc /\ Requires(h) \subseteq Range(inc)
  /\ inc' = Append(inc, h)
  /\ have' = have \cup (Have(Range(inc) \cup {h}) \ Have(Range(inc)))
  /\ defined' = defined \cup {h}                               \* a header defines its things once per unit
\* ---- the programs (only when emitting)
N == Len(Headers)
Coprime == { a \in 1 .. N - 1 : \A d \in 2 .. N : ~(a % d = 0 /\ N % d = 0) }
Order(a, b) == [ i \in 1 .. N |-> Headers[((a * i + b) % N) + 1][1] ]
RECURSIVE Fix(_, _)
Fix(s, done) == IF s = <<>> THEN <<>> ELSE                       \* what a header requires comes first
  LET m == { r \in Requires(Head(s)) : r \notin done } IN
  IF m # {} THEN LET x == CHOOSE y \in m : TRUE IN <<x>> \o Fix(s, done \cup {x})
  ELSE (IF Head(s) \in done /\ Head(s) = "fpm/fixed.hpp" THEN <<>> ELSE <<Head(s)>>) \o Fix(Tail(s), done \cup {Head(s)})
RECURSIVE Seqs(_)
Seqs(s) == IF s = {} THEN {<<>>} ELSE UNION { { <<x>> \o q : q \in Seqs(s \ {x}) } : x \in s }
Units == { Fix(<<h>>, {}) : h \in Names } \cup { Fix(<<h, h>>, {}) : h \in Names }
  \cup { Fix(q, {}) : q \in UNION { Seqs(n) : n \in { n \in UNION { Needs[f] : f \in Facilities } : Cardinality(n) > 1 } } }
Orders == { Fix(Order(a, b), {}) : a \in Coprime, b \in {0, 7, 19} }
Next == IF Emit
        THEN /\ inc = <<>> /\ inc' = <<"emitted">> /\ UNCHANGED <<have, defined>>
             /\ \A u \in Units : PrintT(ToJson([k |-> "unit", inc |-> u, have |-> Have(Range(u)), plain |-> Range(u) \subseteq Plain]))
             /\ \A u \in Orders : PrintT(ToJson([k |-> "order", inc |-> u, have |-> Have(Range(u)), plain |-> FALSE]))
             /\ \A a \in Coprime : PrintT(ToJson([k |-> "order", inc |-> SelectSeq(Order(a, 0), LAMBDA h : h \in Plain),
                                                 have |-> Have(Plain), plain |-> TRUE]))
        ELSE \E h \in Chosen : Include(h)
Spec == Init /\ [][Next]_vars
OrderFree == ~Emit => have = Have(Range(inc))
Once == ~Emit => defined = Range(inc)
Grows == [][have \subseteq have']_vars
Alone == ~Emit => \A f \in Facilities : \E n \in Needs[f] : f \in Have(n)
=============================================================================
