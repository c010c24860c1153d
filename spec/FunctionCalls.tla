--------------------------- MODULE FunctionCalls ---------------------------
(* Forwarding of arguments, results and exceptions through a call.  A row   *)
(* describes one call: how the signature declares the parameter (p), how    *)
(* the callable takes it (q), what the caller passes (a); or how the result *)
(* is declared (p) and returned (q).  The second half: what is stored where.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Part              \* "forward", "storage"

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* ---------------------------------------------------------------- arguments
\* p: val ref cref rref.  q: val ref cref rref any (template).  a: lval rval
ParamOK(p, q, a) ==
  /\ CASE p = "val" -> q \in {"val", "cref", "rref", "any"} /\ a \in {"lval", "rval"}
       [] p = "ref" -> q \in {"val", "ref", "cref", "any"} /\ a = "lval"
       [] p = "cref" -> q \in {"val", "cref", "any"} /\ a \in {"lval", "rval"}
       [] p = "rref" -> q \in {"val", "cref", "rref", "any"} /\ a = "rval"
Copyable(t) == t = "both"                 \* moveonly values cannot be copied
ArgRow(p, q, a, t) ==
  /\ ParamOK(p, q, a)
  /\ ~Copyable(t) => /\ ~(p = "val" /\ a = "lval")
                     /\ ~(q = "val" /\ p \in {"ref", "cref"})
B(x) == IF x THEN 1 ELSE 0
Copies(p, q, a) == B(p = "val" /\ a = "lval") + B(q = "val" /\ p \in {"ref", "cref"})
\* the callee sees the caller's own object
Same(p, q) == p # "val" /\ q # "val"
\* category a template callee sees: 1 lvalue, 2 const lvalue, 3 rvalue
Category(p) == CASE p \in {"val", "rref"} -> 3 [] p = "ref" -> 1 [] p = "cref" -> 2
\* the caller's object after the call has been moved from
Consumed(p, q, a) == \/ p = "val" /\ a = "rval"
                     \/ p = "rref" /\ q = "val"
ArgOK(e) ==
  /\ ArgRow(e.p, e.q, e.a, e.t)
  /\ e.seen = e.v                         \* value seen by the callee
  /\ e.ret = e.v + 1
  /\ e.cp = Copies(e.p, e.q, e.a)
  /\ Same(e.p, e.q) => e.same = 1 /\ e.mv = 0
  /\ (e.q = "any") => e.cat = Category(e.p)
  /\ e.left = (IF Consumed(e.p, e.q, e.a) THEN -1 ELSE e.v)
  /\ e.live = 0                           \* nothing left behind, nothing destroyed twice
  /\ e.err = 0

\* ---------------------------------------------------------------- results
\* p: declared result, q: returned by the callable
ResRow(p, q, t) ==
  CASE p = "void" -> q \in {"void", "val", "ref", "cref", "rref"}
    [] p = "val" -> q \in {"val", "rref"} \/ (Copyable(t) /\ q \in {"ref", "cref"})
    [] p = "ref" -> q = "ref"
    [] p = "cref" -> q \in {"ref", "cref"}
    [] p = "rref" -> q = "rref"
    [] OTHER -> FALSE
ResOK(e) ==
  /\ ResRow(e.p, e.q, e.t)
  /\ e.called = 1
  /\ (e.p # "void") => e.seen = e.v
  /\ (e.p = "val") => e.cp = B(e.q \in {"ref", "cref"})
  /\ (e.p # "val") => e.cp = 0 /\ e.mv = 0
  /\ (e.p \in {"ref", "cref", "rref"}) => e.same = 1
  /\ e.live = 0
  /\ e.err = 0

\* ---------------------------------------------------------------- conversions and several arguments
ConvOK(e) ==
  CASE e.n = "int_to_double" -> e.r = e.v
    [] e.n = "double_to_int" -> e.r = e.v          \* v + 0.5 truncated
    [] e.n = "derived_to_base" -> e.r = e.v
    [] e.n = "int_to_int64" -> e.r = e.v
    [] e.n = "args3" -> e.r = e.v * 100 + (e.v + 1) * 10 + (e.v + 2)
    [] e.n = "args5" -> e.r = e.v * 16 + (e.v + 1) * 8 + (e.v + 2) * 4 + (e.v + 3) * 2 + (e.v + 4)
    [] e.n = "args0" -> e.r = e.v
    [] e.n = "recursion" -> e.r = (e.v * (e.v + 1)) \div 2
    [] e.n = "char_sign" -> e.r = -e.v
    [] e.n = "bool_from_int" -> e.r = B(e.v # 0)

\* ---------------------------------------------------------------- exceptions
ThrowOK(e) ==
  /\ e.caught = e.kind                    \* 1 int, 2 a class by value, 3 derived caught as base, 4 nested wrapper
  /\ e.payload = e.v
  /\ e.held = 1                           \* still non-empty
  /\ e.calls = e.before + 1               \* state changed by the failed call is kept
  /\ e.again = e.before + 2               \* and the same callable answers the next call
  /\ e.live = 0 /\ e.err = 0

ForwardRow(e) ==
  CASE e.op = "arg" -> ArgOK(e)
    [] e.op = "res" -> ResOK(e)
    [] e.op = "conv" -> ConvOK(e)
    [] e.op = "throw" -> ThrowOK(e)
    [] e.op = "end" -> TRUE

P == {"val", "ref", "cref", "rref"}
ArgRows == { r \in P \X (P \cup {"any"}) \X {"lval", "rval"} \X {"both", "moveonly"} : ArgRow(r[1], r[2], r[3], r[4]) }
ResRows == { r \in (P \cup {"void"}) \X (P \cup {"void"}) \X {"both", "moveonly"} : ResRow(r[1], r[2], r[3]) }
\* every combination of the model occurs in the log
Complete ==
  (Part = "forward" /\ Len(Trace) > 0 /\ Trace[Len(Trace)].op = "end") =>
    /\ \A r \in ArgRows : \E i \in 1 .. Len(Trace) :
         Trace[i].op = "arg" /\ <<Trace[i].p, Trace[i].q, Trace[i].a, Trace[i].t>> = r
    /\ \A r \in ResRows : \E i \in 1 .. Len(Trace) :
         Trace[i].op = "res" /\ <<Trace[i].p, Trace[i].q, Trace[i].t>> = r
ASSUME Complete

\* ---------------------------------------------------------------- storage
StorageRow(e) ==
  /\ e.size <= e.cap /\ e.A % e.al = 0
  /\ e.inside = 1           \* the callable lies in the wrapper's own bytes
  /\ e.mod = 0              \* at an address aligned for it
  /\ e.bytes = 1            \* all its bytes preserved by store, move, swap, call
  /\ e.alloc = 0
  /\ e.nothrow = 1
  /\ e.guard = 1            \* nothing round the wrapper is written

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1
        /\ IF Part = "forward" THEN ForwardRow(Trace[l]) ELSE StorageRow(Trace[l])
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
