------------------------------- MODULE Pairing -----------------------------
(* Splitting zeros and poles into second-order sections: any pole may be     *)
(* taken next; a complex root takes its conjugate along, a real one another  *)
(* real one.  However the choices fall, a partner is always there, every     *)
(* root is used exactly once, and the product of the sections so far and the *)
(* remaining roots stays the whole transfer function.                        *)
EXTENDS Transfer
CONSTANTS N, ReR, ImR         \* order; real and imaginary parts of roots, both shifted by 1
VARIABLES z0, p0, zs, ps, secs
vars == <<z0, p0, zs, ps, secs>>
Roots == {<<a - 1, b - 1>> : a \in ReR, b \in ImR}
Lists == {s \in [1 .. N -> Roots] : Closed(s) /\ \A i \in 1 .. N - 1 : s[i][1] * 10 + s[i][2] <= s[i + 1][1] * 10 + s[i + 1][2]}
Init == z0 \in Lists /\ p0 \in Lists /\ zs = Even(z0) /\ ps = Even(p0) /\ secs = <<>>
Drop(s, i, j) == LET keep == SelectSeq([k \in 1 .. Len(s) |-> k], LAMBDA k : k # i /\ k # j) IN [k \in 1 .. Len(keep) |-> s[keep[k]]]
Partners(s, i) == {j \in DOMAIN s \ {i} : IF IsReal(s[i]) THEN IsReal(s[j]) ELSE s[j] = Conjugate(s[i])}
Take == \E i \in DOMAIN ps : \E j \in Partners(ps, i) : \E m \in DOMAIN zs : \E n \in Partners(zs, m) :
          /\ secs' = Append(secs, <<RealPoly(<<zs[m], zs[n]>>), RealPoly(<<ps[i], ps[j]>>)>>)
          /\ zs' = Drop(zs, m, n) /\ ps' = Drop(ps, i, j) /\ UNCHANGED <<z0, p0>>
Next == Take
Spec == Init /\ [][Next]_vars
StillClosed == Closed(zs) /\ Closed(ps)
NeverStuck == ps # <<>> => \A i \in DOMAIN ps : Partners(ps, i) # {}
NeverStuckZ == zs # <<>> => \A i \in DOMAIN zs : Partners(zs, i) # {}
Kept == /\ Conv(PolyProd([s \in 1 .. Len(secs) |-> secs[s][1]]), RealPoly(zs)) = RealPoly(Even(z0))
        /\ Conv(PolyProd([s \in 1 .. Len(secs) |-> secs[s][2]]), RealPoly(ps)) = RealPoly(Even(p0))
Done == ps = <<>> => Sections(z0, p0, 1, secs)
=============================================================================
