------------------------------- MODULE TextMC ------------------------------
(* Text forms tell values apart: two values of the same kind that print      *)
(* alike are equal (numbers with differing digits only; element counts and   *)
(* signs never get lost).                                                    *)
EXTENDS Text, FiniteSets
CONSTANT Raw              \* numbers, shifted by 12
VARIABLE pair
Ns == {<<"n", r - 12>> : r \in Raw}
Cs == {<<"c", r - 12, s - 12>> : r, s \in Raw}
SeqsOf(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Vn == {<<"v", s>> : s \in SeqsOf(Ns, 2)}
Vc == {<<"v", s>> : s \in SeqsOf(Cs, 1)}
Few == {x \in Vc : x[2] = <<>> \/ x[2][1][2] = 0}
Zs == {<<"z", a, b, g>> : a, b \in Few, g \in Ns}
Kinds == {Ns, Cs, Vn, Vc, {<<"s", a, b>> : a, b \in Vn}, {<<"f", a[2], b[2]>> : a, b \in Ns}, Zs, {<<"v", s>> : s \in SeqsOf(Vn, 1)}}
Init == pair \in {<<k, x>> : k \in Kinds, x \in UNION Kinds} /\ pair[2] \in pair[1]
Next == UNCHANGED pair
Spec == Init /\ [][Next]_pair
Distinct == \A y \in pair[1] : Show(y) = Show(pair[2]) => y = pair[2]
=============================================================================
