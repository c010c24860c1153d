--------------------------- MODULE FunctionTypes ---------------------------
(* Which callables a wrapper type accepts, and how the wrapper itself may   *)
(* be used.  Emits the whole matrix, to be compiled as static assertions.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* ---- types of parameters and results, implicit conversion from an expression of type a (as std::declval<a>()) to b
ArgTypes == {"int", "int&", "int const&", "up", "D*"}
ParTypes == {"int", "double", "int&", "int const&", "int&&", "S", "up", "up&&", "up&", "B*", "D*"}
Binds(a, b) ==
  CASE a = "int"        -> b \in {"int", "double", "int const&", "int&&"}
    [] a = "int&"       -> b \in {"int", "double", "int&", "int const&"}
    [] a = "int const&" -> b \in {"int", "double", "int const&"}
    [] a = "up"         -> b \in {"up", "up&&"}
    [] a = "D*"         -> b \in {"D*", "B*"}

RetTypes == {"int", "double", "S", "void", "up", "D*", "int&"}
SigRets == {"int", "double", "S", "void", "up", "B*", "long"}
Converts(r, R) ==
  \/ R = "void"
  \/ r # "void" /\ \/ r = R
                   \/ r = "int" /\ R \in {"double", "long"}
                   \/ r = "int&" /\ R \in {"int", "double", "long"}
                   \/ r = "double" /\ R \in {"int", "long"}
                   \/ r = "D*" /\ R = "B*"

\* ---- call operators: cv/ref qualifiers, one or two of them
Quals == {"", "const", "&", "const&", "&&", "const&&"}
CallableOn(q, const) ==           \* on an lvalue callee, const or not
  CASE q = "" -> ~const
    [] q = "&" -> ~const
    [] q \in {"const", "const&"} -> TRUE
    [] q = "&&" -> FALSE
    [] q = "const&&" -> FALSE

\* ---- first part: qualifiers x results x constness of the signature, argument int -> int
Overloads == { <<q>> : q \in Quals } \cup { <<"", "const">>, <<"&", "const&">>, <<"&", "&&">> }
Some(qs, const) == \E i \in 1 .. Len(qs) : CallableOn(qs[i], const)

MatrixA == { [part |-> "A", quals |-> qs, ret |-> r, R |-> R, c |-> c, arg |-> "int", par |-> "int",
              ok |-> Some(qs, c) /\ Converts(r, R)] :
              qs \in Overloads, r \in RetTypes, R \in SigRets, c \in BOOLEAN }
\* ---- second part: argument and parameter types, result int
MatrixB == { [part |-> "B", quals |-> <<q>>, ret |-> "int", R |-> R, c |-> c, arg |-> a, par |-> p,
              ok |-> Binds(a, p) /\ CallableOn(q, c)] :
              q \in {"", "const"}, R \in {"int", "void"}, c \in BOOLEAN, a \in ArgTypes, p \in ParTypes }
\* ---- arity: callable with n parameters, signature with m
MatrixC == { [part |-> "C", quals |-> <<"const">>, ret |-> "int", R |-> "int", c |-> c, n |-> n, m |-> m,
              arg |-> "", par |-> "", ok |-> n = m] : c \in BOOLEAN, n \in 0 .. 3, m \in 0 .. 3 }

\* the overload that is called, by constness of the signature (checked at run time)
\* ---- wrappers: callable through const?, copyable?, movable without throwing?
Usage == { [part |-> "U", c |-> c, R |-> R, viamutable |-> TRUE, viaconst |-> c, copy |-> FALSE, nothrow |-> TRUE] :
           c \in BOOLEAN, R \in SigRets }

\* ---- storage: what fits
Caps == {1, 2, 4, 8, 16, 24, 32, 48, 100, 128}
Aligns == {1, 2, 4, 8, 16, 32, 64}
Sizes(al) == { s \in {1, 2, 3, 4, 7, 8, 9, 12, 16, 23, 24, 25, 31, 32, 33, 40, 48, 49, 64, 96, 99, 100, 101, 104, 112, 128} : s % al = 0 }
Fits(cap, A, s, al) == s <= cap /\ A % al = 0
Storage == { [part |-> "S", cap |-> cap, A |-> A, size |-> s[1], al |-> s[2], ok |-> Fits(cap, A, s[1], s[2])] :
             cap \in Caps, A \in Aligns, s \in { <<x, a>> \in ((1 .. 128) \X Aligns) : x \in Sizes(a) } }

VARIABLE done
Init == done = FALSE
Next ==
  /\ ~done
  /\ done' = TRUE
  /\ \A m \in MatrixA : PrintT(ToJson(m))
  /\ \A m \in MatrixB : PrintT(ToJson(m))
  /\ \A m \in MatrixC : PrintT(ToJson(m))
  /\ \A m \in Usage : PrintT(ToJson(m))
  /\ \A m \in Storage : PrintT(ToJson(m))
Spec == Init /\ [][Next]_done

\* sanity of the model itself: a const signature accepts no more than a non-const one,
\* void accepts whatever any result type accepts, what fits keeps fitting in a larger, more aligned storage
ASSUME \A m \in MatrixA : (m.c /\ m.ok) => \E k \in MatrixA : k = [m EXCEPT !.c = FALSE] /\ k.ok
ASSUME \A m \in MatrixA : m.ok => \E k \in MatrixA : k = [m EXCEPT !.R = "void"] /\ k.ok
ASSUME \A cap \in Caps, d \in Caps, A \in Aligns, s \in 1 .. 128, al \in Aligns :
         (Fits(cap, A, s, al) /\ d >= cap) => Fits(d, A, s, al) /\ Fits(d, 2 * A, s, al)
=============================================================================
