---------------------------- MODULE VarintTrace ----------------------------
(* Judges a log of calls of embedded::varint.  Values are logged as four    *)
(* 16-bit limbs, least significant first.                                   *)
EXTENDS Varint, TLC, Json, IOUtils

CONSTANT Aspects           \* enc, rt, bound, total

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Has(a) == a \in Aspects

BitsOf(v, w) == [i \in 0 .. w - 1 |-> (v[i \div 16 + 1] \div 2 ^ (i % 16)) % 2]
Sg(e) == e.s = 1
Canary == 165

\* encoding by every form of output
EncOK(e) ==
  LET x == Encode(BitsOf(e.v, e.w), e.w, Sg(e))
      n == Len(x)
  IN Has("enc") =>
     /\ e.sz = n
     /\ \A f \in 1 .. Len(e.out) : e.out[f] = x        \* the bytes written
     /\ \A f \in 1 .. Len(e.pos) : e.pos[f] = n        \* the position returned
     /\ e.can = 1                                      \* nothing else written

\* bounded encoding into room bytes; the buffer is logged with some bytes beyond,
\* of a large one only the start, and whether anything further on was changed
BndOK(e) ==
  LET x == Encode(BitsOf(e.v, e.w), e.w, Sg(e))
      n == Len(x)
  IN Has("bound") =>
     /\ e.far = 1
     /\ \A f \in 1 .. Len(e.pos) :
         /\ e.pos[f] = (IF n <= e.room THEN n ELSE 0)
         /\ \A i \in 1 .. Len(e.buf[f]) :
            IF n <= e.room THEN e.buf[f][i] = (IF i <= n THEN x[i] ELSE Canary)
            ELSE i > e.room => e.buf[f][i] = Canary

\* decoding of arbitrary bytes into every type: r = << <<w, signed, pos, read, limbs>>, .. >>
DecOK(e) ==
  Has("total") =>
    \A i \in 1 .. Len(e.r) :
      LET d == e.r[i]
          w == d[1]
          sg == d[2] = 1
          v == SubSeq(d, 5, 8)
      IN IF Decodes(e.b, w)
         THEN /\ d[3] = Used(e.b)
              /\ d[4] <= Used(e.b)
              /\ BitsOf(v, w) = Decoded(e.b, w, sg)
         ELSE /\ d[3] = 0
              /\ d[4] <= (IF Ends(e.b, 1) = 0 THEN Len(e.b) ELSE Ends(e.b, 1))

\* folding
ZzOK(e) ==
  Has("rt") =>
    /\ BitsOf(e.f, e.w) = Fold(BitsOf(e.v, e.w), e.w)
    /\ e.u = e.v
    /\ BitsOf(e.g, e.w) = Unfold(BitsOf(e.v, e.w), e.w)
    /\ e.h = e.v

\* a stream of values: in[i] = <<w, signed, w2, limbs of the value>>, out[i] = <<read bytes, limbs>>
StrOK(e) ==
  Has("rt") =>
    /\ Len(e.o) = Len(e.i)
    /\ \A k \in 1 .. Len(e.i) :
         LET a == e.i[k]
             sg == a[2] = 1
             b == BitsOf(SubSeq(a, 4, 7), a[1])
         IN /\ BitsOf(SubSeq(e.o[k], 2, 5), a[3]) = Widen(b, a[1], a[3], sg)
            /\ e.o[k][1] = a[8]                        \* consumed what encoding produced
    /\ e.rest = e.tail                                 \* the bytes after the stream were left alone

Step(e) ==
  CASE e.op = "enc" -> EncOK(e)
    [] e.op = "bnd" -> BndOK(e)
    [] e.op = "dec" -> DecOK(e)
    [] e.op = "zz" -> ZzOK(e)
    [] e.op = "str" -> StrOK(e)

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
