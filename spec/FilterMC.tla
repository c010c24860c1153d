------------------------------ MODULE FilterMC -----------------------------
(* All filters with coefficients modulo a small P, all input sequences and   *)
(* all interleavings of instances: the transposed realisation answers as the *)
(* difference equations demand, the design never changes, and feeding one    *)
(* instance leaves the others alone.                                         *)
EXTENDS Filter
CONSTANTS Stages, Ord, NInst
VARIABLES design, hist, st, good, last
vars == <<design, hist, st, good, last>>
Coefs == 0 .. P - 1
Stage == {<<b, <<1>> \o a>> : b \in [1 .. Ord + 1 -> Coefs], a \in [1 .. Ord -> Coefs]}
Init == /\ design \in [1 .. Stages -> Stage]
        /\ hist = [i \in 1 .. NInst |-> Fresh(design)]
        /\ st = [i \in 1 .. NInst |-> TFresh(design)]
        /\ good = TRUE /\ last = 0
Put(i, x) == LET h == Feed(design, hist[i], x) t == TFeed(design, st[i], x) IN
  /\ hist' = [hist EXCEPT ![i] = h[2]]
  /\ st' = [st EXCEPT ![i] = t[2]]
  /\ good' = (h[1] = t[1])
  /\ last' = i
  /\ UNCHANGED design
Copy(i, j) == /\ i # j /\ hist' = [hist EXCEPT ![i] = hist[j]] /\ st' = [st EXCEPT ![i] = st[j]] /\ last' = i /\ UNCHANGED <<design, good>>
Next == (\E i \in 1 .. NInst, x \in Coefs : Put(i, x)) \/ (\E i, j \in 1 .. NInst : Copy(i, j))
Spec == Init /\ [][Next]_vars
Agree == good
Independent == [][\A i \in 1 .. NInst : i # last' => hist'[i] = hist[i]]_vars
DesignKept == [][design' = design]_vars
=============================================================================
