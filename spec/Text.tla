-------------------------------- MODULE Text -------------------------------
(* The text forms of the mathematical types.  Values are tagged tuples:      *)
(*   <<"n", i>>            a number, printed like the element itself         *)
(*   <<"t", str>>          an element with a text of its own                 *)
(*   <<"c", re, im>>       a complex number                                  *)
(*   <<"v", seq>>          a vector or array                                 *)
(*   <<"z", zeros, poles, gain>>    a zero/pole/gain description             *)
(*   <<"s", b, a>>         a section                                         *)
(*   <<"f", whole, raw>>   a fixed-point number                              *)
EXTENDS Integers, Sequences, TLC
RECURSIVE Show(_), ShowAll(_, _)
Show(x) ==
  CASE x[1] = "n" -> ToString(x[2])
    [] x[1] = "t" -> x[2]
    [] x[1] = "c" -> ToString(x[2]) \o (IF x[3] >= 0 THEN "+" ELSE "") \o ToString(x[3]) \o "j"
    [] x[1] = "v" -> "[" \o ShowAll(x[2], 1) \o "]"
    [] x[1] = "z" -> "{zeros=" \o Show(x[2]) \o ", poles=" \o Show(x[3]) \o ", gain=" \o Show(x[4]) \o "}"
    [] x[1] = "s" -> "{b=" \o Show(x[2]) \o ", a=" \o Show(x[3]) \o "}"
    [] x[1] = "f" -> ToString(x[2]) \o " (" \o ToString(x[3]) \o ")"
ShowAll(s, i) == IF i > Len(s) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o Show(s[i]) \o ShowAll(s, i + 1)
=============================================================================
