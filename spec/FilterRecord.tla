---------------------------- MODULE FilterRecord ---------------------------
(* Filter descriptions in an object file section, as bytes.  A record is a   *)
(* header (magic, total length, version, structure, value type, name padded  *)
(* with zeros) followed by the coefficients; records may be separated by     *)
(* alignment padding, which a reader skips up to the next magic.             *)
EXTENDS Integers, Sequences
CONSTANTS Magic, NameLen      \* bytes of the magic; size of the name field (the last byte is always 0)
U16(b, i) == b[i] + 256 * b[i + 1]
At(b, i, n) == SubSeq(b, i, i + n - 1)
M == Len(Magic)
HeaderLen == M + 5 + NameLen
IsMagic(b, i) == i + M - 1 <= Len(b) /\ At(b, i, M) = Magic
Padded(name) == [k \in 1 .. NameLen |-> IF k <= Len(name) /\ k < NameLen THEN name[k] ELSE 0]
RECURSIVE CutZero(_, _)
CutZero(f, k) == IF k > Len(f) THEN f ELSE IF f[k] = 0 THEN SubSeq(f, 1, k - 1) ELSE CutZero(f, k + 1)

\* one record at position i: <<structure, value type, name, coefficient bytes, next position>>, or <<>> if malformed
ReadAt(b, i) ==
  IF ~IsMagic(b, i) \/ i + HeaderLen - 1 > Len(b) THEN <<>>
  ELSE LET len == U16(b, i + M) nm == At(b, i + M + 5, NameLen) IN
       IF len < HeaderLen \/ i + len - 1 > Len(b) \/ b[i + M + 2] # 0 \/ nm[NameLen] # 0 THEN <<>>
       ELSE <<b[i + M + 3], b[i + M + 4], CutZero(nm, 1), At(b, i + HeaderLen, len - HeaderLen), i + len>>
RECURSIVE Read(_, _, _)
\* all records from position i on; not ok if anything but padding is in the way
Read(b, i, acc) ==
  IF i > Len(b) THEN [ok |-> TRUE, recs |-> acc]
  ELSE IF b[i] = 0 THEN Read(b, i + 1, acc)
  ELSE LET r == ReadAt(b, i) IN IF r = <<>> THEN [ok |-> FALSE, recs |-> acc] ELSE Read(b, r[5], Append(acc, <<r[1], r[2], r[3], r[4]>>))

\* what an emitter has to write for a record
Bytes(r) == LET len == HeaderLen + Len(r[4]) IN
  Magic \o <<len % 256, len \div 256, 0, r[1], r[2]>> \o Padded(r[3]) \o r[4]
Shown(r) == <<r[1], r[2], CutZero(Padded(r[3]), 1), r[4]>>
RECURSIVE Emit(_, _)
Emit(rs, align) == IF rs = <<>> THEN <<>> ELSE
  LET h == Bytes(Head(rs)) pad == (align - (Len(h) % align)) % align
      t == Emit(Tail(rs), align)
  IN IF t = <<>> THEN h ELSE h \o [k \in 1 .. pad |-> 0] \o t
=============================================================================
