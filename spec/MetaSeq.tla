------------------------------ MODULE MetaSeq ------------------------------
(* Compile-time integer sequences and type lists.  A sequence or a list is  *)
(* a TLA+ sequence; the operations of the library are transitions on it.    *)
(* The reachable graph is emitted edge by edge; each edge becomes a static  *)
(* assertion about the library's types.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Thorough

\* ------------------------------------------------------------- integer sequences
Range(b, e) == [i \in 1 .. (e - b) |-> b + i - 1]

\* the same by the obvious recursions, one from either end
RECURSIVE Down(_, _), Up(_, _)
Down(b, e) == IF b = e THEN <<>> ELSE Append(Down(b, e - 1), e - 1)
Up(b, e) == IF b = e THEN <<>> ELSE <<b>> \o Up(b + 1, e)

\* "b" and "e" are offsets from an origin of the type: 0, or its largest or smallest value
SType == {"int", "short", "signed char", "long", "long long"}
UType == {"unsigned", "unsigned short", "unsigned char", "std::size_t", "unsigned long long", "char", "std::uint8_t", "char16_t"}
Lens == (0 .. (IF Thorough THEN 70 ELSE 33)) \cup {50, 64, 99, 100, 127} \cup (IF Thorough THEN {200, 255, 256, 300, 500} ELSE {200, 300})
Short(t) == t \in {"signed char", "char", "std::uint8_t", "unsigned char"}

SeqRows ==
  { [k |-> "seq", t |-> t, n |-> n, s |-> Range(0, n)] : t \in {"std::size_t", "int", "unsigned char"}, n \in {x \in Lens : x <= 127} }
  \cup { [k |-> "seq", t |-> t, n |-> n, s |-> Range(0, n)] : t \in {"std::size_t", "int", "long"}, n \in {x \in Lens : x > 127} }
  \cup { [k |-> "seq", t |-> t, n |-> n, s |-> Range(0, n)] : t \in SType \cup UType, n \in 0 .. 9 }
  \cup { [k |-> "iseq", t |-> "std::size_t", n |-> n, s |-> Range(0, n)] : n \in 0 .. 40 }
  \cup { [k |-> "for", t |-> "std::size_t", n |-> n, s |-> Range(0, n)] : n \in 0 .. 25 }
RangeRows ==
  { [k |-> "range", t |-> t, o |-> "0", b |-> b, e |-> b + n, s |-> Range(b, b + n)] : t \in SType \cup UType, b \in {0, 1, 2, 5, 100}, n \in 0 .. 6 }
  \cup { [k |-> "range", t |-> t, o |-> "0", b |-> b - 8, e |-> b - 8 + n, s |-> Range(b - 8, b - 8 + n)] : t \in SType, b \in 0 .. 10, n \in 0 .. 9 }
  \cup { [k |-> "range", t |-> t, o |-> "max", b |-> 0 - n - m, e |-> 0 - m, s |-> Range(0 - n - m, 0 - m)] : t \in SType \cup UType, n \in 0 .. 4, m \in 0 .. 2 }
  \cup { [k |-> "range", t |-> t, o |-> "min", b |-> m, e |-> m + n, s |-> Range(m, m + n)] : t \in SType, n \in 0 .. 4, m \in 0 .. 2 }
  \cup { [k |-> "irange", t |-> "std::size_t", o |-> "0", b |-> b, e |-> b + n, s |-> Range(b, b + n)] : b \in {0, 1, 7, 30, 200}, n \in (0 .. 12) \cup {50, 100} }
\* template argument lists of any length name a type with that size
PackRows == { [k |-> "pack", t |-> t, s |-> s] : t \in {"int", "std::size_t"},
                s \in {<<>>, <<0>>, <<3>>, <<1, 0>>, <<0, 0, 0>>, <<5, 4, 9, 4>>} }

ASSUME \A b \in 0 - 9 .. 9, n \in 0 .. 12 : /\ Range(b, b + n) = Down(b, b + n)
                                            /\ Range(b, b + n) = Up(b, b + n)
                                            /\ Len(Range(b, b + n)) = n
ASSUME \A b \in 0 - 3 .. 3, m \in 0 .. 4, n \in 0 .. 4 : Range(b, b + m) \o Range(b + m, b + m + n) = Range(b, b + m + n)

\* ------------------------------------------------------------- type lists
VARIABLES list,     \* the current pack of types
          kind,     \* the class template it is an argument list of
          depth
vars == <<list, kind, depth>>

Packs == { <<>>, <<"int">>, <<"void">>, <<"double&", "int">>, <<"typelist<int,char>">>,
           <<"up", "char const*", "int">>, <<"int(int)", "int[3]", "S const", "S&&">>, <<"int", "int", "int">> }
Kinds == {"typelist", "holder", "holder2"}
\* templates with a fixed or partly fixed argument list: name, minimum and maximum arity
Fixed == [one |-> 1, two |-> 2, three |-> 3]
MaxLen == IF Thorough THEN 9 ELSE 7
MaxDepth == IF Thorough THEN 4 ELSE 3

Emit(op, arg) == PrintT(ToJson([k |-> "tl", from |-> list, fkind |-> kind, op |-> op, arg |-> arg, to |-> list', tkind |-> kind']))

Init == list \in Packs /\ kind = "typelist" /\ depth = 0
AppendStep(us) ==
  /\ kind = "typelist" /\ depth < MaxDepth /\ Len(list) + Len(us) <= MaxLen
  /\ list' = list \o us
  /\ UNCHANGED kind
  /\ depth' = depth + 1
  /\ Emit("append", us)
ToStep(u) ==
  /\ kind = "typelist" /\ depth < MaxDepth
  /\ kind' = u
  /\ UNCHANGED list
  /\ depth' = depth + 1
  /\ Emit("to", <<>>)
Next == \/ \E us \in Packs : AppendStep(us)
        \/ \E u \in Kinds \cup {f \in DOMAIN Fixed : Fixed[f] = Len(list)} : ToStep(u)

\* the order and the number of the types are kept by every step
TypeOK == kind \in Kinds \cup DOMAIN Fixed /\ Len(list) <= MaxLen
Kept == [][ /\ Len(list') >= Len(list)
            /\ SubSeq(list', 1, Len(list)) = list
            /\ kind' # "typelist" => list' = list ]_vars

EmitAll == \A r \in SeqRows \cup RangeRows \cup PackRows : PrintT(ToJson(r))
ASSUME EmitAll
Spec == Init /\ [][Next]_vars
=============================================================================
