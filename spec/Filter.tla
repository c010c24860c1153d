------------------------------- MODULE Filter ------------------------------
(* Recursive digital filters as difference equations over a commutative      *)
(* ring: the integers (P = 0) or the residues modulo P.  A design is a       *)
(* sequence of stages <<b, a>> with coefficient sequences of equal length,   *)
(* a[1] = 1; a stage computes                                                *)
(*    y[n] = b0 x[n] + b1 x[n-1] + ... - a1 y[n-1] - a2 y[n-2] - ...         *)
(* and the output of one stage is the input of the next.  An instance is the *)
(* history of each of its stages: <<past inputs, past outputs>>, newest      *)
(* first, all 0 at the start.                                                *)
EXTENDS Integers, Sequences
CONSTANT P
R(x) == IF P = 0 THEN x ELSE x % P
Order(stage) == Len(stage[1]) - 1
Fresh(design) == [s \in 1 .. Len(design) |-> [k \in 1 .. 2 |-> [j \in 1 .. Order(design[s]) |-> 0]]]

RECURSIVE Dot(_, _, _)
\* c[k+1] * h[k] + c[k+2] * h[k+1] + ...
Dot(c, h, k) == IF k > Len(h) THEN 0 ELSE R(R(c[k + 1] * h[k]) + Dot(c, h, k + 1))
StageOut(stage, hist, x) == R(R(stage[1][1] * x) + Dot(stage[1], hist[1], 1) - Dot(stage[2], hist[2], 1))
Shift(h, x) == IF h = <<>> THEN h ELSE <<x>> \o SubSeq(h, 1, Len(h) - 1)
StageNext(hist, x, y) == <<Shift(hist[1], x), Shift(hist[2], y)>>

RECURSIVE Run(_, _, _, _, _)
\* feed x through the stages s ..: <<output, new histories>>
Run(design, hist, x, s, acc) ==
  IF s > Len(design) THEN <<x, acc>>
  ELSE LET y == StageOut(design[s], hist[s], x) IN Run(design, hist, y, s + 1, Append(acc, StageNext(hist[s], x, y)))
Feed(design, hist, x) == Run(design, hist, R(x), 1, <<>>)

\* a realisation with one register per coefficient (transposed direct form II), as an alternative state space
TFresh(design) == [s \in 1 .. Len(design) |-> [j \in 1 .. Order(design[s]) |-> 0]]
TStage(stage, st, x) ==
  LET n == Order(stage)
      y == R(R(stage[1][1] * x) + (IF n = 0 THEN 0 ELSE st[1]))
  IN <<y, [j \in 1 .. n |-> R(R(stage[1][j + 1] * x) - R(stage[2][j + 1] * y) + (IF j < n THEN st[j + 1] ELSE 0))]>>
RECURSIVE TRun(_, _, _, _, _)
TRun(design, st, x, s, acc) ==
  IF s > Len(design) THEN <<x, acc>>
  ELSE LET r == TStage(design[s], st[s], x) IN TRun(design, st, r[1], s + 1, Append(acc, r[2]))
TFeed(design, st, x) == TRun(design, st, R(x), 1, <<>>)
=============================================================================
