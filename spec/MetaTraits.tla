----------------------------- MODULE MetaTraits -----------------------------
(* Conjunction as a left-to-right scan with early exit, and the question    *)
(* whether a call is well-formed and its result convertible.  Everything is *)
(* emitted and becomes static assertions.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Thorough

\* ------------------------------------------------------------- conjunction
\* members: true / false in several disguises, and one that must never be looked at
True == {"t", "t3"}          \* true; an integer constant that converts to true
False == {"f", "f0"}         \* false; an integer constant that converts to false
Poison == "p"                \* a member that cannot be instantiated
Members == True \cup False \cup {Poison}
MaxLen == IF Thorough THEN 5 ELSE 4

VARIABLES members, pos, state     \* state: scanning, or decided with the index of the member derived from (0: none)
vars == <<members, pos, state>>
Scanning == [scan |-> TRUE, value |-> TRUE, base |-> 0]

\* poison only where it must not be looked at
Legal(ms) == \A i \in 1 .. Len(ms) : ms[i] = Poison => \E j \in 1 .. i - 1 : ms[j] \in False
Lists == { ms \in UNION { [1 .. n -> Members] : n \in 0 .. MaxLen } : Legal(ms) }
Long == { [i \in 1 .. n |-> IF i < f THEN "t" ELSE IF i = f THEN "f" ELSE Poison] : n \in {12, 40}, f \in {1, 2, 7, 12, 13, 39, 40, 41} }

Init == /\ members \in Lists \cup {ms \in Long : Legal(ms)}
        /\ pos = 0
        /\ state = Scanning
Report(s) == PrintT(ToJson([k |-> "conj", ms |-> members, value |-> s.value, base |-> s.base]))
Step ==
  /\ state.scan
  /\ IF pos = Len(members)
     THEN /\ state' = [scan |-> FALSE, value |-> TRUE, base |-> pos]
          /\ UNCHANGED pos
          /\ Report(state')
     ELSE /\ pos' = pos + 1
          /\ IF members[pos'] \in False
             THEN state' = [scan |-> FALSE, value |-> FALSE, base |-> pos'] /\ Report(state')
             ELSE UNCHANGED state
  /\ UNCHANGED members

\* the scan never looks at a poisoned member, and the decision is the logical conjunction of all members
NeverPoisoned == \A i \in 1 .. pos : members[i] # Poison
Decided == ~state.scan =>
  /\ state.value = (\A i \in 1 .. Len(members) : members[i] \in True)
  /\ state.base = IF state.value THEN Len(members)
                  ELSE CHOOSE i \in 1 .. Len(members) : members[i] \in False /\ \A j \in 1 .. i - 1 : members[j] \notin False

\* ------------------------------------------------------------- invocability
\* expressions: a type and a value category, as the declared value of the types below
ArgTypes == {"int", "int&", "int const&", "int&&", "up", "up&", "D*", "D", "D&", "D const&", "char const*", "E"}
ParTypes == {"int", "double", "int&", "int const&", "int&&", "S", "up", "up&&", "up&", "B*", "D*", "B", "B&", "B const&", "B&&", "bool", "I"}
Value(a) == CASE a \in {"int", "int&", "int const&", "int&&"} -> "int"
              [] a \in {"up", "up&"} -> "up"
              [] a \in {"D", "D&", "D const&"} -> "D"
              [] OTHER -> a
Cat(a) == CASE a \in {"int&", "up&", "D&"} -> "l"
            [] a \in {"int const&", "D const&"} -> "lc"
            [] OTHER -> "r"
\* conversion of a value to a parameter or result of class/scalar type: arithmetic, pointer and user-defined conversions
Implicit(v, cat, p) ==
  CASE v = "int"    -> p \in {"int", "double", "bool", "I", "long"}   \* I has a converting constructor from int
    [] v = "double" -> p \in {"int", "double", "bool", "I", "long"}
    [] v = "up"     -> p = "up" /\ cat = "r"
    [] v = "D"      -> p \in {"D", "B"}
    [] v = "D*"     -> p \in {"D*", "B*", "bool"}
    [] v = "char const*" -> p = "bool"
    [] v = "E"      -> p \in {"E", "int", "double", "bool", "long"}  \* E has a conversion function to int
    [] v = "S"      -> p = "S"
    [] v = "X"      -> p = "X"                               \* X converts to int explicitly only
    [] v = "N"      -> FALSE                                 \* N cannot be moved
    [] OTHER -> FALSE
Binds(a, p) ==
  LET v == Value(a) c == Cat(a) IN
  CASE p = "int&"       -> a = "int&"
    [] p = "int const&" -> v \in {"int", "E"}
    [] p = "int&&"      -> v \in {"int", "E"} /\ c = "r"
    [] p = "up&"        -> a = "up&"
    [] p = "up&&"       -> a = "up"
    [] p = "B&"         -> a = "D&"
    [] p = "B const&"   -> v = "D"
    [] p = "B&&"        -> v = "D" /\ c = "r"
    [] OTHER            -> Implicit(v, c, p)

\* results
RetTypes == {"int", "int&", "int const&", "int&&", "double", "void", "up", "up&", "D*", "D", "D&", "E", "S", "X", "char const*"}
ReqTypes == {"int", "double", "bool", "long", "void", "void const", "up", "B*", "D*", "B", "D", "I", "S", "int&", "int const&", "B&", "B const&"}
Returns(r, R) ==
  CASE R \in {"void", "void const"} -> TRUE
    [] r = "void" -> FALSE
    [] R = "int&" -> r = "int&"
    [] R = "int const&" -> r \in {"int&", "int const&", "int&&"}       \* temporaries: see Skipped
    [] R = "B&" -> r = "D&"
    [] R = "B const&" -> r = "D&"
    [] OTHER -> Implicit(IF r = "void" THEN "void" ELSE Value(r), Cat(r), R)
\* whether a reference result may bind a temporary differs between standards; nothing is said about it
Skipped(r, R) == R \in {"int const&", "B const&"} /\ ~(r \in {"int&", "int const&", "int&&", "D&", "void", "S", "X", "up", "up&", "D*", "char const*"})

\* callees: how the callable is named, and the qualifiers of its call operator(s)
Callees == {"T", "T&", "T const&", "T&&", "T const"}
Quals == {"", "const", "&", "const&", "&&", "const&&"}
On(q, callee) ==
  LET const == callee \in {"T const&", "T const"}
      lv == callee \in {"T&", "T const&"}
  IN CASE q = "" -> ~const
       [] q = "const" -> TRUE
       [] q = "&" -> lv /\ ~const
       [] q = "const&" -> TRUE
       [] q = "&&" -> ~lv /\ ~const
       [] q = "const&&" -> ~lv
Overloads == { <<q>> : q \in Quals } \cup { <<"", "const">>, <<"&", "&&">>, <<"&", "const&">>, <<"const&", "&&">> }
Some(qs, callee) == \E i \in 1 .. Len(qs) : On(qs[i], callee)

\* the row's call: result type ret, requested type R, callee, arguments args, parameters pars
Row(part, qs, ret, R, callee, args, pars, ok) ==
  [k |-> "inv", part |-> part, quals |-> qs, ret |-> ret, R |-> R, callee |-> callee, args |-> args, pars |-> pars, ok |-> ok]
PartA == { Row("A", qs, "int", R, cl, <<"int">>, <<"int">>, Some(qs, cl) /\ Returns("int", R)) :
             qs \in Overloads, R \in {"int", "void", "S"}, cl \in Callees }
PartB == { Row("B", <<"const">>, "int", R, "T&", <<a>>, <<p>>, Binds(a, p)) :
             a \in ArgTypes, p \in ParTypes, R \in {"void", "int"} }
PartC == { Row("C", <<"const">>, x[1], x[2], "T", <<>>, <<>>, Returns(x[1], x[2])) :
             x \in { y \in RetTypes \X ReqTypes : ~Skipped(y[1], y[2]) } }
\* several arguments: every one has to bind, and their number has to match
Args2 == {"int", "int&", "up", "D&"}
Pars2 == {"int", "int&", "up", "B&"}
PartD == { Row("D", <<"const">>, "int", R, "T&", as, ps,
               Len(as) = Len(ps) /\ \A i \in 1 .. Len(as) : i <= Len(ps) => Binds(as[i], ps[i])) :
             as \in UNION { [1 .. n -> Args2] : n \in 0 .. 2 }, ps \in UNION { [1 .. n -> Pars2] : n \in 0 .. 2 }, R \in {"void", "int"} }
         \cup { Row("D", <<"const">>, "int", "void", "T&", [i \in 1 .. n |-> "int"], [i \in 1 .. m |-> "int"], n = m) : n \in 0 .. 9, m \in 0 .. 9 }
\* special callables: name, arguments, result
Other == {"int", "S", "int*", "void", "std::nullptr_t", "S&", "int[2]", "cls_private", "cls_deleted", "cls_ambiguous"}
PartE == { Row("E", <<>>, "int", R, c, as, <<>>, FALSE) : c \in Other, as \in { <<>>, <<"int">> }, R \in {"void", "int"} }
         \cup { Row("E", <<>>, "int", R, c[1], as, <<>>, Len(as) >= c[2] /\ Len(as) <= c[3]) :
                  c \in { <<"cls_default", 1, 3>>, <<"cls_variadic", 0, 3>>, <<"cls_generic", 1, 1>>, <<"cls_pack", 0, 3>>,
                          <<"cls_two", 1, 2>>, <<"cls_base", 1, 1>>, <<"cls_surrogate", 1, 1>>, <<"cls_virtual", 1, 1>>,
                          <<"fun1", 1, 1>>, <<"fun1&", 1, 1>>, <<"fun1*", 1, 1>>, <<"fun1* const&", 1, 1>>,
                          <<"fun0", 0, 0>>, <<"funv*", 0, 3>>, <<"funn*", 1, 1>>,
                          <<"std_function", 1, 1>>, <<"lambda", 1, 1>>, <<"lambda const&", 1, 1>>, <<"mlambda", 1, 1>> },
                  as \in { [i \in 1 .. n |-> "int"] : n \in 0 .. 3 }, R \in {"void", "int"} }
         \cup { Row("E", <<>>, "int", R, "mlambda const&", as, <<>>, Len(as) = 1) : as \in { <<>>, <<"int">> }, R \in {"void", "int"} }   \* by its conversion to a function pointer
Rows == PartA \cup PartB \cup PartC \cup PartD \cup PartE

\* sanity: void accepts whatever any other requested type accepts; adding overloads never loses a call
ASSUME \A r \in PartC : r.ok => Row("C", r.quals, r.ret, "void", r.callee, r.args, r.pars, TRUE) \in PartC
ASSUME \A qs \in Overloads, cl \in Callees : \A i \in 1 .. Len(qs) : Some(<<qs[i]>>, cl) => Some(qs, cl)
ASSUME \A cl \in Callees : Some(<<"const">>, cl) /\ Some(<<"const&">>, cl)
ASSUME \A r \in Rows : PrintT(ToJson(r))

Spec == Init /\ [][Step]_vars
=============================================================================
