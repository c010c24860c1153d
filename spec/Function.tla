----------------------------- MODULE Function -----------------------------
(* embedded::function<Signature, Capacity, Alignment>: wrappers that hold  *)
(* at most one callable each.  A callable is a record [k, s]: its kind and *)
(* its accumulated state.  Moving hands it over, the source becomes empty. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT IsConst       \* TRUE: signature int(Obj&) const

VARIABLES alive,       \* wrapper -> constructed?
          held,        \* wrapper -> callable or Nothing
          ext          \* state of the external object std::ref refers to

fnvars == <<alive, held, ext>>

Nothing == [k |-> "none", s |-> 0]
Wrappers == DOMAIN alive
Full(w) == held[w] # Nothing

\* what is stored when a wrapper is made from an argument of the given form
NullForms == {"dflt", "null", "nmf", "nmk", "nmd"}
Made(h, v) == IF h \in NullForms THEN Nothing
              ELSE IF h \in {"fp", "fr", "mf", "mk", "md", "ref"} THEN [k |-> h, s |-> 0]
              ELSE [k |-> h, s |-> v]

\* number of instrumented objects a callable consists of
Weight(c) == CASE c.k \in {"pure", "count", "over", "listable", "moveonly", "owner"} -> 1
               [] c.k = "nest" -> 2
               [] OTHER -> 0

\* result of a call on an object with value x, and the state afterwards
Result(c, x) ==
  CASE c.k = "fp" -> x + 5
    [] c.k = "fr" -> x + 6
    [] c.k = "mf" -> 2 * x
    [] c.k = "mk" -> 3 * x
    [] c.k = "md" -> x
    [] c.k = "ref" -> ext + x
    [] c.k = "over" -> IF IsConst THEN c.s + x + 7 ELSE c.s + x
    [] OTHER -> c.s + x
Changes(c) == c.k \in {"count", "lmu"} \/ (c.k = "over" /\ ~IsConst)
After(c) == IF Changes(c) THEN [c EXCEPT !.s = @ + 1000] ELSE c

Construct(w, c) ==
  /\ ~alive[w]
  /\ alive' = [alive EXCEPT ![w] = TRUE]
  /\ held' = [held EXCEPT ![w] = c]
  /\ UNCHANGED ext

MoveConstruct(w, x) ==
  /\ ~alive[w] /\ alive[x]
  /\ alive' = [alive EXCEPT ![w] = TRUE]
  /\ held' = [held EXCEPT ![w] = held[x], ![x] = Nothing]
  /\ UNCHANGED ext

Destroy(w) ==
  /\ alive[w]
  /\ alive' = [alive EXCEPT ![w] = FALSE]
  /\ held' = [held EXCEPT ![w] = Nothing]
  /\ UNCHANGED ext

Assign(w, c) ==
  /\ alive[w]
  /\ held' = [held EXCEPT ![w] = c]
  /\ UNCHANGED <<alive, ext>>

MoveAssign(w, x) ==
  /\ alive[w] /\ alive[x] /\ w # x
  /\ held' = [held EXCEPT ![w] = held[x], ![x] = Nothing]
  /\ UNCHANGED <<alive, ext>>

\* moving a wrapper onto itself leaves it as it is or empty
SelfMove(w) ==
  /\ alive[w]
  /\ held' \in {held, [held EXCEPT ![w] = Nothing]}
  /\ UNCHANGED <<alive, ext>>

Swap(w, x) ==
  /\ alive[w] /\ alive[x]
  /\ held' = [held EXCEPT ![w] = held[x], ![x] = held[w]]
  /\ UNCHANGED <<alive, ext>>

Call(w) ==
  /\ alive[w]
  /\ held' = [held EXCEPT ![w] = After(@)]
  /\ ext' = IF held[w].k = "ref" /\ ~IsConst THEN ext + 1000 ELSE ext
  /\ UNCHANGED alive

Reset ==
  /\ alive' = [w \in Wrappers |-> FALSE]
  /\ held' = [w \in Wrappers |-> Nothing]
  /\ ext' = 500
=============================================================================
