------------------------------- MODULE Codec -------------------------------
(* Integer codecs.  What every codec owes its caller (lossless, or a refusal   *)
(* where a refusal is allowed), and the byte formats of those whose format is  *)
(* simple enough to be written down, as decoders over the bytes themselves.    *)
(* Integers are 32 bits wide and written in two's complement: 2^31 and above   *)
(* appear as negative numbers.                                                 *)
EXTENDS Bytes, Integers, Sequences, SequencesExt
Pow2(k) == IF k = 31 THEN -2147483647 - 1 ELSE 2^k
\* the field of w bits at bit p, least significant first
Bit(b, p) == (b[p \div 8 + 1] \div 2^(p % 8)) % 2
Field(b, p, w) == FoldLeft(LAMBDA a, k : IF Bit(b, p + k - 1) = 1 THEN a + Pow2(k - 1) ELSE a, 0, [k \in 1..(IF w > 32 THEN 32 ELSE w) |-> k])
\* the field of w bits at bit p, most significant first
MSField(b, p, w) == FoldLeft(LAMBDA a, k : IF Bit(b, p + w - k) = 1 THEN a + Pow2(k - 1) ELSE a, 0, [k \in 1..w |-> k])
Room(b, p, w) == p + w <= 8 * Len(b)
Same(w, n) == [k \in 1..n |-> w]
\* widths: successive fields from bit p
Fields(b, p, ws) == LET at(k) == FoldLeft(LAMBDA a, j : a + ws[j], p, [j \in 1..(k - 1) |-> j]) IN [k \in 1..Len(ws) |-> Field(b, at(k), ws[k])]
BAD == <<-7, -7, -7>>            \* what bytes that are no encoding decode to
Cut(s, n) == IF Len(s) >= n THEN SubSeq(s, 1, n) ELSE BAD

(* ---- one selector and a row of fields per word ---- *)
S9 == <<Same(1, 28), Same(2, 14), Same(3, 9), Same(4, 7), Same(5, 5), Same(7, 4), Same(9, 3), Same(14, 2), Same(28, 1)>>
S16 == <<Same(1, 28), Same(2, 7) \o Same(1, 14), Same(1, 7) \o Same(2, 7) \o Same(1, 7), Same(1, 14) \o Same(2, 7), Same(2, 14),
         Same(4, 1) \o Same(3, 8), <<3, 4, 4, 4, 4, 3, 3, 3>>, Same(4, 7), <<5, 5, 5, 5, 4, 4>>, <<4, 4, 5, 5, 5, 5>>, <<6, 6, 6, 5, 5>>,
         <<5, 5, 6, 6, 6>>, Same(7, 4), <<10, 9, 9>>, Same(14, 2), Same(28, 1)>>
S8bCount == <<240, 120, 60, 30, 20, 15, 12, 10, 8, 7, 6, 5, 4, 3, 2, 1>>
S8bWidth == <<0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 30, 60>>
R10 == <<Same(30, 1), Same(15, 2), Same(10, 3), Same(7, 4), Same(6, 5), Same(5, 6), Same(4, 7), Same(3, 10), Same(2, 15), Same(1, 30)>>
R10Next == <<<<4, 3, 2, 1>>, <<4, 3, 2, 1>>, <<4, 3, 2, 1>>, <<5, 4, 3, 1>>, <<6, 5, 4, 1>>, <<7, 6, 5, 1>>, <<8, 7, 6, 1>>, <<9, 8, 7, 1>>, <<10, 9, 8, 1>>, <<10, 9, 8, 1>>>>
R10First == <<Same(28, 1), Same(14, 2), Same(9, 3), Same(7, 4), Same(5, 5), Same(4, 7), Same(3, 9), Same(2, 14), Same(1, 28)>>
RECURSIVE Words32(_, _, _, _, _)
Words32(b, o, rows, n, out) ==
  IF Len(out) >= n THEN Cut(out, n) ELSE IF ~Room(b, o, 32) THEN BAD
  ELSE LET s == Field(b, o, 4) IN IF s + 1 > Len(rows) THEN BAD ELSE Words32(b, o + 32, rows, n, out \o Fields(b, o + 4, rows[s+1]))
RECURSIVE Words8b(_, _, _, _)
Words8b(b, o, n, out) ==
  IF Len(out) >= n THEN Cut(out, n) ELSE IF ~Room(b, o, 64) THEN BAD
  ELSE LET s == Field(b, o, 4) + 1 IN
       Words8b(b, o + 64, n, out \o (IF s <= 2 THEN Same(1, S8bCount[s]) ELSE Fields(b, o + 4, Same(S8bWidth[s], S8bCount[s]))))
RECURSIVE Words10(_, _, _, _, _)
Words10(b, o, row, n, out) ==
  IF Len(out) >= n THEN Cut(out, n) ELSE IF ~Room(b, o, 32) THEN BAD
  ELSE LET r == R10Next[row][Field(b, o + 30, 2) + 1] IN Words10(b, o + 32, r, n, out \o Fields(b, o, R10[r]))
Relative10(b, n) == IF ~Room(b, 0, 32) THEN BAD
                    ELSE LET s == Field(b, 28, 4) + 1 IN IF s > 9 THEN BAD ELSE Words10(b, 32, s, n, Fields(b, 0, R10First[s]))
(* Carryover-12: a word's selector sits in its own low two bits, or in two bits *)
(* the word before had to spare.                                               *)
C12Width == <<1, 2, 3, 4, 5, 6, 7, 9, 10, 14, 15, 28, 1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 30>>
C12Count == <<30, 15, 10, 7, 6, 5, 4, 3, 3, 2, 2, 1, 32, 16, 10, 8, 6, 5, 4, 4, 3, 2, 2, 1>>
C12Spare == {4, 7, 8, 10, 12, 15, 17, 18, 19, 21, 22, 24}
C12Next == <<<<1, 2, 3, 12>>, <<1, 2, 3, 12>>, <<2, 3, 4, 12>>, <<15, 16, 17, 24>>, <<4, 5, 6, 12>>, <<5, 6, 7, 12>>, <<18, 19, 20, 24>>,
             <<19, 20, 21, 24>>, <<8, 9, 10, 12>>, <<21, 22, 23, 24>>, <<9, 10, 11, 12>>, <<18, 21, 23, 24>>, <<1, 2, 3, 12>>, <<1, 2, 3, 12>>,
             <<14, 15, 16, 24>>, <<3, 4, 5, 12>>, <<16, 17, 18, 24>>, <<17, 18, 19, 24>>, <<18, 19, 20, 24>>, <<7, 8, 9, 12>>, <<20, 21, 22, 24>>,
             <<21, 22, 23, 24>>, <<9, 10, 11, 12>>, <<18, 21, 23, 24>>>>
RECURSIVE Words12(_, _, _, _, _)
Words12(b, o, row, n, out) ==
  IF ~Room(b, o, 32) THEN (IF Len(out) >= n THEN Cut(out, n) ELSE BAD)
  ELSE LET got == out \o Fields(b, o + (IF row <= 12 THEN 2 ELSE 0), Same(C12Width[row], C12Count[row])) IN
       IF Len(got) >= n THEN Cut(got, n)
       ELSE IF row \in C12Spare THEN Words12(b, o + 32, C12Next[row][Field(b, o + 30, 2) + 1], n, got)
       ELSE IF ~Room(b, o + 32, 32) THEN BAD ELSE Words12(b, o + 32, C12Next[row][Field(b, o + 32, 2) + 1], n, got)
(* ---- byte oriented ---- *)
RECURSIVE VBytes(_, _, _, _)
VBytes(b, o, acc, out) == IF o >= Len(b) THEN out
                          ELSE LET v == IF acc >= 16777216 THEN (acc - 33554432 * (acc \div 33554432)) ELSE acc   \* drop bits a 32-bit value cannot hold
                                   x == IF v >= 16777216 THEN (v - 33554432) * 128 + (b[o+1] % 128) ELSE v * 128 + (b[o+1] % 128) IN
                               IF b[o+1] >= 128 THEN VBytes(b, o + 1, 0, Append(out, x)) ELSE VBytes(b, o + 1, x, out)
Bytes32(b, o, n) == FoldLeft(LAMBDA a, k : a + (IF k = 4 /\ b[o+4] >= 128 THEN (b[o+4] - 256) * 16777216 ELSE b[o+k] * 256^(k-1)), 0, [k \in 1..n |-> k])
StreamVByte(b, n) ==
  LET keys == (n + 3) \div 4
      len(k) == ((b[(k - 1) \div 4 + 1] \div 4^((k - 1) % 4)) % 4) + 1
      r == FoldLeft(LAMBDA a, k : IF a.o + len(k) > Len(b) THEN [a EXCEPT !.bad = TRUE]
                                  ELSE [o |-> a.o + len(k), out |-> Append(a.out, Bytes32(b, a.o, len(k))), bad |-> a.bad],
                    [o |-> keys, out |-> <<>>, bad |-> FALSE], [k \in 1..n |-> k])
  IN IF Len(b) < keys \/ r.bad THEN BAD ELSE r.out
None4(b, n) == IF Len(b) < 4 * n THEN BAD ELSE [k \in 1..n |-> Bytes32(b, 4 * (k - 1), 4)]
Nybble8(b) == FoldLeft(LAMBDA a, k : a \o (IF b[2*k-1] = 0 THEN <<b[2*k] \div 16, b[2*k] % 16>> ELSE <<b[2*k]>>), <<>>, [k \in 1..(Len(b) \div 2) |-> k])
\* a selector byte, then sixteen bits shared out evenly, the first field highest
LyckCount == <<8, 4, 2, 1>>
Lyck16(b) == FoldLeft(LAMBDA a, k : IF a = BAD \/ b[3*k-2] > 3 THEN BAD
                                    ELSE LET m == LyckCount[b[3*k-2] + 1] IN LET w == 16 \div m IN
                                         a \o [j \in 1..m |-> ((b[3*k-1] + 256 * b[3*k]) \div 2^(16 - j * w)) % 2^w],
                      <<>>, [k \in 1..(Len(b) \div 3) |-> k])
(* ---- bit oriented ---- *)
RECURSIVE Zeros(_, _)
Zeros(b, p) == IF p >= 8 * Len(b) \/ Bit(b, p) = 1 THEN 0 ELSE 1 + Zeros(b, p + 1)
\* <<value, next bit>> of one code
Gamma1(b, p) == LET z == Zeros(b, p) IN IF z > 31 \/ ~Room(b, p, 2 * z + 1) THEN <<-7, -1>> ELSE <<Pow2(z) + Field(b, p + z + 1, z), p + 2 * z + 1>>
GammaM1(b, p) == LET z == Zeros(b, p) IN IF z > 31 \/ ~Room(b, p, 2 * z + 1) THEN <<-7, -1>> ELSE <<Pow2(z) + MSField(b, p + z + 1, z), p + 2 * z + 1>>
Delta1(b, p) == LET g == Gamma1(b, p) IN IF g[2] < 0 \/ g[1] \notin 1..32 \/ ~Room(b, g[2], g[1] - 1) THEN <<-7, -1>> ELSE <<Pow2(g[1] - 1) + Field(b, g[2], g[1] - 1), g[2] + g[1] - 1>>
DeltaM1(b, p) == LET g == GammaM1(b, p) IN IF g[2] < 0 \/ g[1] \notin 1..32 \/ ~Room(b, g[2], g[1] - 1) THEN <<-7, -1>> ELSE <<Pow2(g[1] - 1) + MSField(b, g[2], g[1] - 1), g[2] + g[1] - 1>>
RECURSIVE Codes(_, _, _, _, _)
Codes(One(_, _), b, p, n, out) == IF Len(out) = n THEN out ELSE LET c == One(b, p) IN IF c[2] < 0 THEN BAD ELSE Codes(One, b, c[2], n, Append(out, c[1]))
(* ---- interleaved lanes: a selector byte, then a block of L 32-bit lanes ---- *)
PackWidth == <<1, 2, 3, 4, 5, 6, 8, 10, 16, 32>>
RECURSIVE Lanes(_, _, _, _, _)
Lanes(b, o, L, n, out) ==
  IF Len(out) >= n THEN Cut(out, n) ELSE IF ~Room(b, o, 8 + 32 * L) THEN BAD
  ELSE LET s == b[o \div 8 + 1] + 1 IN
       IF s > 10 THEN BAD
       ELSE LET w == PackWidth[s] IN Lanes(b, o + 8 + 32 * L, L, n, out \o [k \in 1..(L * (32 \div w)) |-> Field(b, o + 8 + 32 * ((k - 1) % L) + w * ((k - 1) \div L), w)])

Formats == {"-cs", "-cp", "-ct", "-cq", "-cT", "-cQ", "-cr", "-cc", "-cv", "-cV", "-cn", "nybble8", "lyck16", "-cg", "-cd", "-cG", "-cD", "-c64", "-c128", "-c256"}
Decode(c, b, n) ==
  CASE c \in {"-cs", "-cp"} -> Words32(b, 0, S9, n, <<>>)
    [] c \in {"-ct", "-cq"} -> Words32(b, 0, S16, n, <<>>)
    [] c \in {"-cT", "-cQ"} -> Words8b(b, 0, n, <<>>)
    [] c = "-cr" -> Relative10(b, n)
    [] c = "-cc" -> Words12(b, 0, 24, n, <<>>)
    [] c = "-cv" -> VBytes(b, 0, 0, <<>>)
    [] c = "-cV" -> StreamVByte(b, n)
    [] c = "-cn" -> None4(b, n)
    [] c = "nybble8" -> Cut(Nybble8(b), n)
    [] c = "lyck16" -> Cut(Lyck16(b), n)
    [] c = "-cg" -> Codes(Gamma1, b, 0, n, <<>>)
    [] c = "-cd" -> Codes(Delta1, b, 0, n, <<>>)
    [] c = "-cG" -> Codes(GammaM1, b, 0, n, <<>>)
    [] c = "-cD" -> Codes(DeltaM1, b, 0, n, <<>>)
    [] c = "-c64" -> Lanes(b, 0, 2, n, <<>>)
    [] c = "-c128" -> Lanes(b, 0, 4, n, <<>>)
    [] c = "-c256" -> Lanes(b, 0, 8, n, <<>>)

(* ---- what a codec owes ---- *)
NoZero == {"-cC", "-cd", "-cD", "-cg", "-cG", "-cQ", "-cT"}                  \* undefined for 0
\* every list of values below 2^Bits is accepted (given room); beyond that a refusal is allowed, a wrong answer never
Bits(c) == IF c \in {"-cs", "-cp", "-ct", "-cq", "-cr", "-cc"} THEN 28 ELSE IF c = "nybble8" THEN 8 ELSE IF c = "lyck16" THEN 16 ELSE 32
Fits(v, bits) == IF bits = 32 THEN TRUE ELSE v >= 0 /\ v < 2^bits
Checked == {"-cc", "-cC", "-cD", "-cE", "-cF", "-cG", "-cn", "-cp", "-cq", "-cQ", "-cr", "-cs", "-ct", "-cT", "-cv", "-c128", "-c256", "-c32r", "-c64", "nybble8", "lyck16"}
Roomy(n, limit) == limit >= 1024 + 16 * n
MustAccept(c, in, limit) == Roomy(Len(in), limit) /\ (\A k \in DOMAIN in : Fits(in[k], Bits(c))) /\ (c = "-cC" => Len(in) > 60)
EncodeOk(c, in, limit, got, past, out) ==
  /\ in # <<>>
  /\ (got = 0) => ~MustAccept(c, in, limit)
  /\ (got # 0) => (out = in)
  /\ (c \in Checked \/ Roomy(Len(in), limit)) => (past = 0 /\ got <= limit)
(* ---- differences ---- *)
D1(in) == [k \in DOMAIN in |-> IF k = 1 THEN in[1] ELSE in[k] - in[k-1]]
Dn(in, n) == [k \in DOMAIN in |-> IF k <= n THEN in[k] ELSE in[k] - in[k-n]]
=============================================================================
