------------------------------- MODULE Codec_MC -------------------------------
(* A writer for each word, bit and byte format: it appends one coded unit (a    *)
(* word, a block, a code) at a time, any unit the format allows, and what has   *)
(* been written must decode to exactly what was put in.                         *)
EXTENDS Codec, TLC, Json
CONSTANTS MaxUnits, Values(_), Emit
VARIABLES c, bits, seq, units, row
vars == <<c, bits, seq, units, row>>
Lsb(v, w) == [k \in 1..w |-> IF v < 0 THEN (IF k = 32 THEN 1 ELSE ((v + 2147483647 + 1) \div 2^(k-1)) % 2) ELSE IF k > 31 THEN 0 ELSE (v \div 2^(k-1)) % 2]
Msb(v, w) == Reverse(Lsb(v, w))
Flat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
ToBytes(bs) == LET n == (Len(bs) + 7) \div 8 IN [k \in 1..n |-> FoldLeft(LAMBDA a, j : a + (IF 8*(k-1)+j <= Len(bs) /\ bs[8*(k-1)+j] = 1 THEN 2^(j-1) ELSE 0), 0, [j \in 1..8 |-> j])]
FillTo(bs, n) == bs \o [k \in 1..(n - Len(bs)) |-> 0]
Modelled == {"-cs", "-ct", "-cT", "-cr", "-cc", "-cg", "-cG", "-cd", "-cD", "-c64", "-cv", "nybble8", "lyck16", "-cV", "-cn"}
Top(w) == IF w >= 32 THEN -1 ELSE IF w = 31 THEN 2147483647 ELSE 2^w - 1
\* a representative set of values for a field of w bits
Vals(w) == {Top(w)} \cup (IF w > 1 /\ w < 32 THEN {2^(w-1)} ELSE {}) \cup {1}
\* a row of fields: all the largest value, or one position differing
RowValues(ws) == {[k \in DOMAIN ws |-> Top(ws[k])]} \cup {[k \in DOMAIN ws |-> IF k = p THEN Top(ws[k]) ELSE 1] : p \in Values(Len(ws))}
Word(sel, selw, ws, vs, total) == FillTo(Lsb(sel, selw) \o Flat([k \in DOMAIN ws |-> Lsb(vs[k], ws[k])]), total)
Init == c \in Modelled /\ bits = <<>> /\ seq = <<>> /\ units = 0 /\ row = 0
Put(b, s, r) == bits' = bits \o b /\ seq' = seq \o s /\ row' = r
Rows(R) == \E r \in DOMAIN R : \E vs \in RowValues(R[r]) : Put(Word(r - 1, 4, R[r], vs, 32), vs, 0)
S8b == \E r \in DOMAIN S8bWidth : LET ws == Same(S8bWidth[r], S8bCount[r]) IN
         IF r <= 2 THEN Put(FillTo(Lsb(r - 1, 4), 64), Same(1, S8bCount[r]), 0)
         ELSE IF S8bWidth[r] > 32 THEN \E v \in {Top(32), 2147483647} : Put(FillTo(Lsb(r - 1, 4) \o Lsb(v, 32), 64), <<v>>, 0)
         ELSE \E vs \in RowValues(ws) : Put(Word(r - 1, 4, ws, vs, 64), vs, 0)
R10Unit == IF units = 0 THEN \E r \in 1..9 : \E vs \in RowValues(R10First[r]) :
                  Put(FillTo(Flat([k \in DOMAIN vs |-> Lsb(vs[k], R10First[r][k])]), 28) \o Lsb(r - 1, 4), vs, r)
           ELSE \E s \in 1..4 : \E vs \in RowValues(R10[R10Next[row][s]]) :
                  Put(FillTo(Flat([k \in DOMAIN vs |-> Lsb(vs[k], R10[R10Next[row][s]][k])]), 30) \o Lsb(s - 1, 2), vs, R10Next[row][s])
C12Unit == IF units = 0 THEN \E v \in Vals(30) : Put(Lsb(v, 30) \o <<0, 0>>, <<v>>, 24)
           ELSE \E s \in 1..4 : \E r \in {C12Next[row][s]} : \E vs \in RowValues(Same(C12Width[r], C12Count[r])) :
             \E body \in {Flat([k \in DOMAIN vs |-> Lsb(vs[k], C12Width[r])])} :
                /\ bits' = (IF row \in C12Spare THEN SubSeq(bits, 1, Len(bits) - 2) \o Lsb(s - 1, 2) \o FillTo(body, 32) ELSE bits \o FillTo(Lsb(s - 1, 2) \o body, 32))
                /\ seq' = seq \o vs /\ row' = r
Bytewise(v) == LET d(k) == (v \div 128^(k-1)) % 128
                   n == IF v < 128 THEN 1 ELSE IF v < 16384 THEN 2 ELSE IF v < 2097152 THEN 3 ELSE IF v < 268435456 THEN 4 ELSE 5 IN
               Flat([k \in 1..n |-> Lsb(d(n + 1 - k) + (IF k = n THEN 128 ELSE 0), 8)])
Log2(v) == IF v < 0 THEN 31 ELSE CHOOSE k \in 0..30 : 2^k <= v /\ (k = 30 \/ v < 2^(k+1))
Rest(v) == IF v < 0 THEN v + 2147483647 + 1 ELSE v - 2^Log2(v)
GammaBits(v, F(_, _)) == Same(0, Log2(v)) \o <<1>> \o F(Rest(v), Log2(v))
DeltaBits(v, F(_, _)) == GammaBits(Log2(v) + 1, F) \o F(Rest(v), Log2(v))
Samples == UNION {Vals(w) : w \in {1, 2, 7, 8, 9, 16, 17, 28, 31, 32}}
LaneUnit == \E r \in DOMAIN PackWidth : LET w == PackWidth[r] IN LET n == 2 * (32 \div w) IN
              \E vs \in RowValues(Same(w, n)) :
                Put(Lsb(r - 1, 8) \o FillTo(Flat([k \in 1..(n \div 2) |-> Lsb(vs[2*k-1], w)]), 32) \o FillTo(Flat([k \in 1..(n \div 2) |-> Lsb(vs[2*k], w)]), 32), vs, 0)
Next ==
  /\ units < MaxUnits /\ units' = units + 1 /\ c' = c
  /\ CASE c = "-cs" -> Rows(S9)
       [] c = "-ct" -> Rows(S16)
       [] c = "-cT" -> S8b
       [] c = "-cr" -> R10Unit
       [] c = "-cc" -> C12Unit
       [] c = "-cg" -> \E v \in Samples : Put(GammaBits(v, Lsb), <<v>>, 0)
       [] c = "-cG" -> \E v \in Samples : Put(GammaBits(v, Msb), <<v>>, 0)
       [] c = "-cd" -> \E v \in Samples : Put(DeltaBits(v, Lsb), <<v>>, 0)
       [] c = "-cD" -> \E v \in Samples : Put(DeltaBits(v, Msb), <<v>>, 0)
       [] c = "-c64" -> LaneUnit
       [] c = "-cv" -> \E v \in (Samples \cap Nat) : Put(Bytewise(v), <<v>>, 0)
       [] c = "nybble8" -> \E v \in {16, 17, 128, 255} : \E p \in {0, 1, 15} : Put(Lsb(0, 8) \o Lsb(p + 16 * (v % 16), 8) \o Lsb(0, 0), <<v % 16, p>>, 0)
       [] c = "lyck16" -> \E s \in 0..3 : LET m == LyckCount[s + 1] IN LET w == 16 \div m IN \E vs \in RowValues(Same(w, m)) :
                            Put(Lsb(s, 8) \o Flat([k \in 1..m |-> Lsb(vs[m + 1 - k], w)]), vs, 0)
       [] c \in {"-cV", "-cn"} -> \E v \in Samples : Put(Lsb(v, 32), <<v>>, 0)
\* the two formats whose header comes first are assembled at the end
ByteLen(v) == IF v < 0 THEN 4 ELSE IF v < 256 THEN 1 ELSE IF v < 65536 THEN 2 ELSE IF v < 16777216 THEN 3 ELSE 4
SvBytes == LET n == Len(seq) IN ToBytes(FillTo(Flat([k \in 1..n |-> Lsb(ByteLen(seq[k]) - 1, 2)]), 8 * ((n + 3) \div 4)) \o Flat([k \in 1..n |-> Lsb(seq[k], 8 * ByteLen(seq[k]))]))
Decodes == units > 0 => Decode(c, IF c = "-cV" THEN SvBytes ELSE ToBytes(bits), Len(seq)) = seq
\* a shorter request returns the front of the list, and a cut encoding is never mistaken for a whole one
Prefix == units > 0 /\ c \notin {"-cv", "-cV", "nybble8"} => Decode(c, ToBytes(bits), Len(seq) - 1) = SubSeq(seq, 1, Len(seq) - 1)
Truncated == units > 0 /\ c \notin {"-cv", "-cV"} => (\A n \in 1..3 : LET b == ToBytes(bits) IN n <= Len(b) /\ (c \in {"-cg", "-cG", "-cd", "-cD"} => n = 1 /\ Len(bits) % 8 = 0) => Decode(c, SubSeq(b, 1, Len(b) - n - (IF c = "nybble8" THEN 1 ELSE 0)), Len(seq)) # seq)
Spec == Init /\ [][Next]_vars
Done == units = MaxUnits => (IF Emit THEN PrintT("@@" \o ToJson([c |-> c, v |-> seq])) ELSE TRUE)
Few(n) == {1, n} \cup (IF n > 3 THEN {3} ELSE {})
All(n) == 1..n
=============================================================================
