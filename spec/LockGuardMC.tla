---------------------------- MODULE LockGuardMC ----------------------------
(* Exhaustive exploration of LockGuard and emission of its histories as     *)
(* schedules for the real code.                                             *)
EXTENDS LockGuard, TLC, Json

CONSTANTS MaxDepth, MaxCmds, Emit, Throwing
VARIABLE cmds
mvars == <<vars, cmds>>

Budget == Len(cmds) < MaxCmds
Cmd(x) == cmds' = Append(cmds, x)
Same == UNCHANGED cmds

MCInit == Init /\ cmds = <<>>

Commands ==
  \/ \E t \in Threads, m \in Mutexes, c \in (IF Throwing THEN 0 .. 1 ELSE {1}) :
       /\ Budget /\ Depth(t) < MaxDepth
       /\ Open(t, m, c) /\ Cmd(<<"open", t, m, c>>)
  \/ \E t \in Threads, m \in Mutexes : Budget /\ Grant(t, m) /\ Cmd(<<"grant", t>>)
  \/ \E t \in Threads, m \in Mutexes : Throwing /\ Budget /\ Fail(t, m) /\ Cmd(<<"fail", t>>)
  \/ \E t \in Threads, k \in 1 .. MaxDepth : Budget /\ Leave(t, k) /\ Cmd(<<"leave", t, k>>)
  \/ \E t \in Threads : Throwing /\ Budget /\ Throw(t) /\ Cmd(<<"throw", t>>)

\* what the code does by itself after a command, before the next one
Auto == \E t \in Threads, m \in Mutexes : (Ask(t, m) \/ Body(t, m) \/ Release(t, m)) /\ Same

Next == IF ENABLED Auto THEN Auto ELSE Commands
Spec == MCInit /\ [][Next]_mvars

\* without the schedules: all interleavings of the steps themselves
FreeNext ==
  /\ \/ \E t \in Threads, m \in Mutexes, c \in 0 .. 1 : Depth(t) < MaxDepth /\ Open(t, m, c)
     \/ \E t \in Threads, m \in Mutexes : Ask(t, m) \/ Grant(t, m) \/ Fail(t, m) \/ Body(t, m) \/ Release(t, m)
     \/ \E t \in Threads, k \in 1 .. MaxDepth : Leave(t, k)
     \/ \E t \in Threads : Throw(t)
  /\ Same
FreeSpec == MCInit /\ [][FreeNext]_mvars
\* the counters grow without bound: only their differences matter
Bound == \A m \in Mutexes : count[m].lock <= 4
FreeView == <<frames, unw, held, [m \in Mutexes |-> count[m].lock - count[m].fail - count[m].unlock]>>

Emitted ==
  \/ ~Emit
  \/ ~(Len(cmds) = MaxCmds /\ ~ENABLED Auto)
  \/ PrintT(ToJson([c |-> cmds]))
=============================================================================
