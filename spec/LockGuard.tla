----------------------------- MODULE LockGuard -----------------------------
(* Scoped lock guards: threads enter and leave scopes, each scope owns one  *)
(* guard of one mutex.  A scope can be left normally, together with its     *)
(* enclosing scopes, or by an exception that unwinds to the nearest scope   *)
(* entered under a handler; locking itself can fail with an exception.      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Threads, Mutexes, Recursive      \* Recursive \subseteq Mutexes

VARIABLES
  frames,   \* thread -> scopes, outermost first: [m, c, st]
  unw,      \* thread -> number of scopes still to be left
  held,     \* mutex -> [t: holder or 0, n: times locked]
  count     \* bookkeeping for the properties: [lock, fail, unlock] calls per mutex

vars == <<frames, unw, held, count>>

Init ==
  /\ frames = [t \in Threads |-> <<>>]
  /\ unw = [t \in Threads |-> 0]
  /\ held = [m \in Mutexes |-> [t |-> 0, n |-> 0]]
  /\ count = [m \in Mutexes |-> [lock |-> 0, fail |-> 0, unlock |-> 0]]

Depth(t) == Len(frames[t])
Top(t) == frames[t][Depth(t)]
SetTop(t, s) == frames' = [frames EXCEPT ![t][Depth(t)].st = s]
Pop(t) == frames' = [frames EXCEPT ![t] = SubSeq(@, 1, Depth(t) - 1)]
Free(t, m) == held[m].n = 0 \/ (m \in Recursive /\ held[m].t = t)

\* may the thread run its own code (outermost, or inside a guarded body)?
Running(t) == unw[t] = 0 /\ (IF Depth(t) = 0 THEN TRUE ELSE Top(t).st = "live")

\* number of scopes an exception leaves when it starts in the top scope
RECURSIVE ToHandler(_, _)
ToHandler(s, k) == IF k = 0 THEN 0 ELSE IF s[k].c = 1 THEN 1 ELSE 1 + ToHandler(s, k - 1)

Open(t, m, c) ==
  /\ Running(t)
  /\ Depth(t) = 0 => c = 1
  /\ frames' = [frames EXCEPT ![t] = Append(@, [m |-> m, c |-> c, st |-> "enter"])]
  /\ UNCHANGED <<unw, held, count>>

\* the guard is constructed: it asks for its mutex, exactly once
Ask(t, m) ==
  /\ Depth(t) > 0 /\ unw[t] = 0
  /\ Top(t).st = "enter" /\ Top(t).m = m
  /\ SetTop(t, "asking")
  /\ count' = [count EXCEPT ![m].lock = @ + 1]
  /\ UNCHANGED <<unw, held>>

Grant(t, m) ==
  /\ Depth(t) > 0 /\ unw[t] = 0
  /\ Top(t).st = "asking" /\ Top(t).m = m
  /\ Free(t, m)
  /\ held' = [held EXCEPT ![m] = [t |-> t, n |-> @.n + 1]]
  /\ SetTop(t, "held")
  /\ UNCHANGED <<unw, count>>

\* locking throws: there is no guard, the exception leaves the scope
Fail(t, m) ==
  /\ Depth(t) > 0 /\ unw[t] = 0
  /\ Top(t).st = "asking" /\ Top(t).m = m
  /\ unw' = [unw EXCEPT ![t] = ToHandler(frames[t], Depth(t)) - 1]
  /\ Pop(t)
  /\ count' = [count EXCEPT ![m].fail = @ + 1]
  /\ UNCHANGED held

Body(t, m) ==
  /\ Depth(t) > 0 /\ unw[t] = 0
  /\ Top(t).st = "held" /\ Top(t).m = m
  /\ SetTop(t, "live")
  /\ UNCHANGED <<unw, held, count>>

Leave(t, k) ==
  /\ Depth(t) > 0 /\ Running(t)
  /\ k \in 1 .. Depth(t)
  /\ unw' = [unw EXCEPT ![t] = k]
  /\ UNCHANGED <<frames, held, count>>

Throw(t) ==
  /\ Depth(t) > 0 /\ Running(t)
  /\ unw' = [unw EXCEPT ![t] = ToHandler(frames[t], Depth(t))]
  /\ UNCHANGED <<frames, held, count>>

\* the innermost guard is destroyed
Release(t, m) ==
  /\ Depth(t) > 0 /\ unw[t] > 0
  /\ Top(t).st = "live" /\ Top(t).m = m
  /\ held[m].t = t
  /\ held' = [held EXCEPT ![m] = IF @.n = 1 THEN [t |-> 0, n |-> 0] ELSE [@ EXCEPT !.n = @ - 1]]
  /\ unw' = [unw EXCEPT ![t] = @ - 1]
  /\ Pop(t)
  /\ count' = [count EXCEPT ![m].unlock = @ + 1]

----------------------------------------------------------------------------
\* scopes of t whose guard holds m
Owned(t, m) == {i \in 1 .. Depth(t) : frames[t][i].m = m /\ frames[t][i].st \in {"held", "live"}}

\* guarded sections on one mutex never overlap
Exclusion ==
  \A m \in Mutexes : \A t, u \in Threads :
    (t # u /\ Owned(t, m) # {}) => Owned(u, m) = {}

\* the mutex is held exactly while there are guards on it
Exact ==
  \A m \in Mutexes :
    /\ held[m].n = 0 <=> \A t \in Threads : Owned(t, m) = {}
    /\ held[m].n > 0 => held[m].n = Cardinality(Owned(held[m].t, m))

\* nothing is left behind, nothing unlocked twice or without a successful lock
Balanced ==
  \A m \in Mutexes : 
    /\ count[m].unlock <= count[m].lock - count[m].fail
    /\ (\A t \in Threads : Depth(t) = 0) => 
          count[m].unlock = count[m].lock - count[m].fail /\ held[m].n = 0

\* code runs inside a scope only under its mutex
Guarded == \A t \in Threads : \A i \in 1 .. Depth(t) :
             frames[t][i].st = "live" => held[frames[t][i].m].t = t
=============================================================================
