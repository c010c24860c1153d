------------------------------ MODULE Varint ------------------------------
(* embedded::varint: variable length encoding of integers in groups of G   *)
(* bits (G = 7 in the library), least significant first, continuation flag *)
(* 2^G on all but the last.  Integers are bit vectors b: 0..w-1 -> {0,1}   *)
(* (two's complement when signed), because TLC's own are too narrow.       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT G

Flag == 2 ^ G
MinOf(a, b) == IF a < b THEN a ELSE b

\* folding of signed values: 0,-1,1,-2,.. -> 0,1,2,3,..
Fold(b, w) == [i \in 0 .. w - 1 |-> IF i = 0 THEN b[w - 1] ELSE (b[i - 1] + b[w - 1]) % 2]
Unfold(z, w) == [i \in 0 .. w - 1 |-> IF i = w - 1 THEN z[0] ELSE (z[i + 1] + z[0]) % 2]

\* number of significant bits
RECURSIVE Top(_, _)
Top(b, n) == IF n = 0 THEN 0 ELSE IF b[n - 1] = 1 THEN n ELSE Top(b, n - 1)

Groups(b, w) == LET t == Top(b, w) IN IF t = 0 THEN 1 ELSE (t + G - 1) \div G

RECURSIVE Sum(_, _, _, _)
Sum(b, w, from, n) ==      \* value of bits from .. from+n-1
  IF n = 0 THEN 0
  ELSE Sum(b, w, from, n - 1) + (IF from + n - 1 < w THEN b[from + n - 1] * 2 ^ (n - 1) ELSE 0)

EncodeBits(b, w) ==
  LET n == Groups(b, w)
  IN [k \in 1 .. n |-> Sum(b, w, G * (k - 1), G) + (IF k < n THEN Flag ELSE 0)]

Encode(b, w, signed) == EncodeBits(IF signed THEN Fold(b, w) ELSE b, w)

\* ---- decoding of arbitrary bytes
MaxGroups(w) == (w + G - 1) \div G

\* position of the byte that completes the first value, 0 if there is none
RECURSIVE Ends(_, _)
Ends(s, k) == IF k > Len(s) THEN 0 ELSE IF s[k] < Flag THEN k ELSE Ends(s, k + 1)

Bit(x, i) == (x \div 2 ^ i) % 2
\* all bits of the first k groups
AllBits(s, k) == [i \in 0 .. G * k - 1 |-> Bit(s[i \div G + 1] % Flag, i % G)]

Fits(s, k, w) == \A i \in w .. G * k - 1 : Bit(s[i \div G + 1] % Flag, i % G) = 0
ValueBits(s, k, w) == [i \in 0 .. w - 1 |-> IF i < G * k THEN Bit(s[i \div G + 1] % Flag, i % G) ELSE 0]

Decodes(s, w) == LET k == Ends(s, 1) IN k > 0 /\ k <= MaxGroups(w) /\ Fits(s, k, w)
Used(s) == Ends(s, 1)
Decoded(s, w, signed) ==
  LET z == ValueBits(s, Used(s), w) IN IF signed THEN Unfold(z, w) ELSE z

\* widening a value
Widen(b, w, w2, signed) == [i \in 0 .. w2 - 1 |-> IF i < w THEN b[i] ELSE IF signed THEN b[w - 1] ELSE 0]
=============================================================================
