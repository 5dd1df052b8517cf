------------------------------- MODULE Bytes -------------------------------
(* Byte strings (sequences of 0..255) and the fixed and variable width numbers *)
(* the file formats use.  Offsets count from 0, as in a file.  A number that   *)
(* does not fit TLC's integers reads as -1, which no format rule accepts.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Have(b, o, n) == o >= 0 /\ o + n <= Len(b)
U16(b, o) == IF Have(b, o, 2) THEN b[o+1] + 256 * b[o+2] ELSE -1
U32(b, o) == IF Have(b, o, 4) /\ b[o+4] < 128 THEN b[o+1] + 256 * b[o+2] + 65536 * b[o+3] + 16777216 * b[o+4] ELSE -1
U64(b, o) == IF Have(b, o, 8) /\ b[o+5] = 0 /\ b[o+6] = 0 /\ b[o+7] = 0 /\ b[o+8] = 0 THEN U32(b, o) ELSE -1
RECURSIVE ZeroAt(_, _)
ZeroAt(b, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = 0 THEN i ELSE ZeroAt(b, i + 1)
\* the zero-terminated string at an offset
CStr(b, o) == LET z == ZeroAt(b, o + 1) IN SubSeq(b, o + 1, z - 1)
HasCStr(b, o) == o >= 0 /\ o < Len(b) /\ ZeroAt(b, o + 1) > 0
\* variable byte, most significant group first, last byte marked: <<value, next offset>>
RECURSIVE VB(_, _, _)
VB(b, o, v) == IF o >= Len(b) \/ v > 16777215 THEN <<-1, o>>
               ELSE IF b[o+1] >= 128 THEN <<v * 128 + b[o+1] - 128, o + 1>> ELSE VB(b, o + 1, v * 128 + b[o+1])
VByte(b, o) == VB(b, o, 0)
\* the shortest variable byte encoding of a number
RECURSIVE VBHead(_)
VBHead(v) == IF v = 0 THEN <<>> ELSE Append(VBHead(v \div 128), v % 128)
PutVB(v) == Append(VBHead(v \div 128), 128 + (v % 128))
Put16(v) == <<v % 256, (v \div 256) % 256>>
Put32(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, (v \div 16777216) % 256>>
Put64(v) == Put32(v) \o <<0, 0, 0, 0>>
\* dictionary order: bytes first, then the shorter
RECURSIVE LexFrom(_, _, _)
LexFrom(a, b, i) == IF i > Len(a) THEN i <= Len(b) ELSE IF i > Len(b) THEN FALSE
                    ELSE IF a[i] < b[i] THEN TRUE ELSE IF a[i] > b[i] THEN FALSE ELSE LexFrom(a, b, i + 1)
Lex(a, b) == LexFrom(a, b, 1)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
\* the pieces between separators; text ending in a separator has no last piece
Split(b, sep) ==
  LET r == FoldLeft(LAMBDA a, x : IF x = sep THEN [done |-> Append(a.done, a.cur), cur |-> <<>>] ELSE [a EXCEPT !.cur = Append(@, x)],
                    [done |-> <<>>, cur |-> <<>>], b)
  IN IF r.cur = <<>> THEN r.done ELSE Append(r.done, r.cur)
=============================================================================
