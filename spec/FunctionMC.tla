----------------------------- MODULE FunctionMC -----------------------------
(* Design check: the wrapper operations performed in the small steps of the *)
(* implementation (dispatch pointer and storage change separately, assigning *)
(* goes through a temporary) refine Function, and at every moment each       *)
(* callable object exists exactly once.                                      *)
(* Emission: every history  construct, construct, two operations, probes.    *)
EXTENDS Function, TLC, Json

CONSTANTS Emit, NW, Objs

VARIABLES vt,       \* wrapper or temporary -> does its dispatch pointer say "holds something"
          obj,      \* wrapper or temporary -> object in the storage, or Nothing
          todo,     \* remaining small steps of the operation under way
          pend,     \* the abstract state the operation must lead to
          hist      \* emission only

vars == <<alive, held, ext, vt, obj, todo, pend, hist>>
view == <<alive, held, ext, vt, obj, todo, pend>>

WS == 0 .. NW - 1
Tmp == NW
Cells == 0 .. NW
Values == [k : {"count"}, s : Objs]

Init ==
  /\ alive = [w \in WS |-> FALSE] /\ held = [w \in WS |-> Nothing] /\ ext = 0
  /\ vt = [c \in Cells |-> FALSE] /\ obj = [c \in Cells |-> Nothing]
  /\ todo = <<>> /\ pend = <<>> /\ hist = <<>>

Free == { v \in Values : \A c \in Cells : obj[c] # v }

\* start of an operation: abstract effect remembered in pend, small steps queued
Begin(steps, newalive, newheld) ==
  /\ todo = <<>> /\ pend = <<>>
  /\ todo' = steps
  /\ pend' = <<newalive, newheld>>
  /\ UNCHANGED <<alive, held, ext, vt, obj, hist>>

OpConstruct(w, v) == ~alive[w] /\ Begin(<<<<"make", w, v>>>>, [alive EXCEPT ![w] = TRUE], [held EXCEPT ![w] = v])
OpDefault(w) == ~alive[w] /\ Begin(<<<<"empty", w>>>>, [alive EXCEPT ![w] = TRUE], held)
OpMoveConstruct(w, x) ==
  /\ ~alive[w] /\ alive[x]
  /\ Begin(<<<<"takevt", w, x>>, <<"moveobj", w, x>>>>, [alive EXCEPT ![w] = TRUE],
           [held EXCEPT ![w] = held[x], ![x] = Nothing])
OpDestroy(w) == alive[w] /\ Begin(<<<<"destroy", w>>>>, [alive EXCEPT ![w] = FALSE], [held EXCEPT ![w] = Nothing])
MoveSteps(w, x) == IF w = x THEN <<>> ELSE <<<<"destroy", w>>, <<"takevt", w, x>>, <<"moveobj", w, x>>>>
OpMoveAssign(w, x) ==
  /\ alive[w] /\ alive[x]
  /\ Begin(MoveSteps(w, x), alive, IF w = x THEN held ELSE [held EXCEPT ![w] = held[x], ![x] = Nothing])
OpAssign(w, v) ==
  /\ alive[w]
  /\ Begin(<<<<"make", Tmp, v>>>> \o MoveSteps(w, Tmp) \o <<<<"destroy", Tmp>>>>, alive, [held EXCEPT ![w] = v])
OpAssignNull(w) ==
  /\ alive[w]
  /\ Begin(<<<<"empty", Tmp>>>> \o MoveSteps(w, Tmp) \o <<<<"destroy", Tmp>>>>, alive, [held EXCEPT ![w] = Nothing])
OpSwap(w, x) ==
  /\ alive[w] /\ alive[x]
  /\ Begin(<<<<"takevt", Tmp, w>>, <<"moveobj", Tmp, w>>>> \o MoveSteps(w, x) \o MoveSteps(x, Tmp) \o
           <<<<"destroy", Tmp>>>>, alive, [held EXCEPT ![w] = held[x], ![x] = held[w]])

MicroStep ==
  /\ todo # <<>>
  /\ todo' = Tail(todo)
  /\ LET t == Head(todo) IN
     CASE t[1] = "make" -> /\ vt' = [vt EXCEPT ![t[2]] = TRUE]
                           /\ obj' = [obj EXCEPT ![t[2]] = t[3]]
       [] t[1] = "empty" -> vt' = [vt EXCEPT ![t[2]] = FALSE] /\ UNCHANGED obj
       [] t[1] = "takevt" -> vt' = [vt EXCEPT ![t[2]] = vt[t[3]], ![t[3]] = FALSE] /\ UNCHANGED obj
       [] t[1] = "moveobj" -> /\ obj' = IF vt[t[2]] THEN [obj EXCEPT ![t[2]] = obj[t[3]], ![t[3]] = Nothing] ELSE obj
                              /\ UNCHANGED vt
       [] t[1] = "destroy" -> /\ obj' = IF vt[t[2]] THEN [obj EXCEPT ![t[2]] = Nothing] ELSE obj
                              /\ vt' = [vt EXCEPT ![t[2]] = FALSE]
  /\ UNCHANGED <<alive, held, ext, pend, hist>>

Finish ==
  /\ todo = <<>> /\ pend # <<>>
  /\ alive' = pend[1] /\ held' = pend[2]
  /\ pend' = <<>>
  /\ UNCHANGED <<ext, vt, obj, todo, hist>>

DesignNext ==
  \/ MicroStep \/ Finish
  \/ \E w \in WS :
       \/ OpDefault(w) \/ OpDestroy(w) \/ OpAssignNull(w)
       \/ \E v \in Free : OpConstruct(w, v) \/ OpAssign(w, v)
       \/ \E x \in WS : OpMoveConstruct(w, x) \/ OpMoveAssign(w, x) \/ OpSwap(w, x)

Quiet == todo = <<>> /\ pend = <<>>
Refines == Quiet => \A w \in WS : obj[w] = held[w] /\ vt[w] = (held[w] # Nothing)
Unique == \A c, d \in Cells : (obj[c] # Nothing /\ obj[c] = obj[d]) => c = d
NoTemp == Quiet => obj[Tmp] = Nothing /\ ~vt[Tmp]
NoneDead == Quiet => \A w \in WS : ~alive[w] => obj[w] = Nothing

\* ------------------------------------------------------------------ emission
\* argument forms of constructions and assignments: <<how, form, value>>
Forms ==
  { <<h, "", 0>> : h \in {"dflt", "null", "fp", "fr", "mf", "mk", "md", "nmf", "nmk", "nmd", "ref"} }
  \cup { <<"lam", "", 31>> }
  \cup { <<"pure", f, 11>> : f \in {"l", "k", "t", "r"} }
  \cup { <<"over", f, 12>> : f \in {"l", "r"} }
  \cup { <<h, f, 13>> : h \in {"moveonly", "owner", "nest"}, f \in {"t", "r"} }
  \cup { <<"plain", "l", 14>>, <<"odd", "t", 15>>, <<"knower", "l", 16>> }
  \cup (IF IsConst THEN {} ELSE { <<"count", f, 16>> : f \in {"l", "t"} } \cup {<<"lmu", "", 17>>})

S(f) == IF f[2] = "" THEN <<f[1]>> \o (IF f[3] = 0 THEN <<>> ELSE <<f[3]>>) ELSE f
OpsFor(w, first) ==
  { <<"asg", w>> \o S(f) : f \in first }
  \cup { <<"asg", w, "mv", x>> : x \in WS }
  \cup { <<"swap", w, x>> : x \in WS }
  \cup { <<"call", w, 3>>, <<"del", w>> }
  \cup { <<"new", 2, "mv", w>> }

EmitInit ==
  /\ alive = [w \in WS |-> FALSE] /\ held = [w \in WS |-> Nothing] /\ ext = 0
  /\ vt = <<>> /\ obj = <<>> /\ todo = <<>> /\ pend = <<>>
  /\ hist = <<>>

Pick == { f \in Forms : f[1] \in {"null", "pure", "fp", "moveonly", "md"} /\ f[2] \in {"", "l", "t"} }
EmitNext ==
  /\ UNCHANGED <<alive, held, ext, vt, obj, todo, pend>>
  /\ CASE Len(hist) = 0 -> \E f \in Forms : hist' = Append(hist, <<"new", 0>> \o S(f))
       [] Len(hist) = 1 -> \E f \in Pick : hist' = Append(hist, <<"new", 1>> \o S(f))
       [] Len(hist) = 2 -> \E o \in OpsFor(0, IF hist[2][3] = "null" THEN Forms ELSE {}) \cup OpsFor(1, {}) :
                              hist' = Append(hist, o) /\ PrintT(ToJson(hist'))
       [] OTHER -> FALSE
DesignSpec == Init /\ [][DesignNext]_vars
EmitSpec == EmitInit /\ [][EmitNext]_vars
=============================================================================
