--------------------------- MODULE FunctionTrace ---------------------------
(* Validates a log of operations on real wrappers against Function.         *)
(* Aspects: res (results, emptiness), own (lifetimes), const (overloads),   *)
(* mem (place and dynamic memory).                                          *)
EXTENDS Function, TLC, Json, IOUtils

CONSTANT Aspects

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<alive, held, ext, l>>
Has(a) == a \in Aspects
B(x) == IF x THEN 1 ELSE 0

TraceInit ==
  /\ l = 1
  /\ alive = [w \in 0 .. 3 |-> FALSE]
  /\ held = [w \in 0 .. 3 |-> Nothing]
  /\ ext = 500

Do(e) ==
  CASE e.op = "reset" -> Reset
    [] e.op = "new" -> IF e.h = "mv" THEN MoveConstruct(e.w, e.v) ELSE Construct(e.w, Made(e.h, e.v))
    [] e.op = "asg" -> IF e.h = "mv" THEN (IF e.w = e.v THEN SelfMove(e.w) ELSE MoveAssign(e.w, e.v))
                       ELSE Assign(e.w, Made(e.h, e.v))
    [] e.op = "del" -> Destroy(e.w)
    [] e.op = "swap" -> Swap(e.w, e.v)
    [] e.op = "call" -> Call(e.w)

\* callables without instruments: bytes of several sizes, and one that only knows its address
Plain == {"plain", "one", "odd", "whole", "three", "knower"}
Inner(c) == IF c.k = "nest" THEN 1 ELSE 0

\* emptiness is what tells the outcomes of a self-move apart
Bools == [w \in 0 .. 3 |-> IF ~alive'[w] THEN -1 ELSE B(held'[w] # Nothing)]
AsFn(s) == [w \in 0 .. 3 |-> s[w + 1]]

ResOK(e) ==
  Has("res") =>
    /\ AsFn(e.b) = Bools
    /\ (e.op = "call") => IF Full(e.w) THEN e.x = 0 /\ e.r = Result(held[e.w], e.v)
                          ELSE e.x = 1

CopiesOf(e) == IF e.op \in {"new", "asg"} /\ e.f \in {"l", "k"} /\ Weight(Made(e.h, e.v)) > 0 THEN 1 ELSE 0
OwnOK(e) ==
  Has("own") =>
    /\ AsFn(e.in) = [w \in 0 .. 3 |-> Weight(held'[w])]
    /\ e.out = 0
    /\ e.err = 0
    /\ e.cp = CopiesOf(e)
    /\ (e.op \in {"new", "asg"} /\ e.f \in {"l", "k"}) => e.left = e.v
    /\ (e.op \in {"new", "asg"} /\ e.f = "r" /\ Weight(Made(e.h, e.v)) > 0) => e.left = -1

ConstOK(e) ==
  (Has("const") /\ e.op = "call" /\ Full(e.w)) =>
    LET k == IF held[e.w].k = "nest" THEN "pure" ELSE held[e.w].k
    IN /\ (k \in {"pure", "listable", "moveonly", "owner", "plain"}) => e.nc = 0 /\ e.c = 1
       /\ (k = "over") => IF IsConst THEN e.nc = 0 /\ e.c = 1 ELSE e.nc = 1 /\ e.c = 0
       /\ (k = "count") => e.nc = 1 /\ e.c = 0
       /\ (k = "over") => e.r = Result(held[e.w], e.v)

MemOK(e) ==
  Has("mem") =>
    /\ e.al = 0
    /\ e.g = 1
    /\ AsFn(e.in) = [w \in 0 .. 3 |-> Weight(held'[w])]
    /\ e.out = 0
    /\ (e.op = "call" /\ Full(e.w) /\ held[e.w].k \in Plain) => e.r = Result(held[e.w], e.v)

Step(e) ==
  /\ Do(e)
  /\ (e.op = "asg" /\ e.h = "mv" /\ e.w = e.v) => AsFn(e.b) = Bools
  /\ ResOK(e) /\ OwnOK(e) /\ ConstOK(e) /\ MemOK(e)

TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
