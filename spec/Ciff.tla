------------------------------- MODULE Ciff -------------------------------
(* The common index format: protocol buffer messages one after another, each behind its length - a header, as many postings lists as
   it says, as many document records as it says.  A sequence of bytes; numbers beyond 31 bits are only known to be Huge. *)
EXTENDS Integers, Sequences, SequencesExt
Huge == 2147483647
Pow2 == <<1, 128, 16384, 2097152, 268435456>>
\* <<value, position after it>>; 7 bits a byte, the least significant first
RECURSIVE VarintFrom(_, _, _, _)
VarintFrom(b, p, n, a) ==
  LET c == b[p] % 128
      v == IF c = 0 \/ a = Huge THEN a ELSE IF n > 5 \/ (n = 5 /\ c > 7) THEN Huge ELSE a + c * Pow2[n]
  IN IF b[p] < 128 THEN <<v, p + 1>> ELSE VarintFrom(b, p + 1, n + 1, v)
Varint(b, p) == VarintFrom(b, p, 1, 0)
\* the fields of a message in b[p..e]: <<number, kind, value>> for numbers, <<number, kind, from, to>> for texts
RECURSIVE Fields(_, _, _)
Fields(b, p, e) ==
  IF p > e THEN <<>>
  ELSE LET kind == b[p] % 8 number == b[p] \div 8 IN
    CASE kind = 0 -> LET v == Varint(b, p + 1) IN <<<<number, kind, v[1], 0>>>> \o Fields(b, v[2], e)
      [] kind = 1 -> <<<<number, kind, 0, 0>>>> \o Fields(b, p + 9, e)
      [] kind = 5 -> <<<<number, kind, 0, 0>>>> \o Fields(b, p + 5, e)
      [] OTHER -> LET v == Varint(b, p + 1) IN <<<<number, kind, v[2], v[2] + v[1] - 1>>>> \o Fields(b, v[2] + v[1], e)
Chosen(fs, n, k) == SelectSeq(fs, LAMBDA f : f[1] = n /\ f[2] = k)
\* a field that is not there is zero; the last one counts
Num(fs, n) == LET s == Chosen(fs, n, 0) IN IF s = <<>> THEN 0 ELSE s[Len(s)][3]
Str(b, fs, n) == LET s == Chosen(fs, n, 2) IN IF s = <<>> THEN <<>> ELSE SubSeq(b, s[Len(s)][3], s[Len(s)][4])
Known(fs, kinds) == \A i \in DOMAIN fs : <<fs[i][1], fs[i][2]>> \in kinds
\* messages from p on: their extents
RECURSIVE Messages(_, _)
Messages(b, p) == IF p > Len(b) THEN <<>> ELSE LET v == Varint(b, p) IN <<<<v[2], v[2] + v[1] - 1>>>> \o Messages(b, v[2] + v[1])
HeaderKinds == {<<i, 0>> : i \in 1..6} \cup {<<7, 1>>, <<8, 2>>}
ListKinds == {<<1, 2>>, <<2, 0>>, <<3, 0>>, <<4, 2>>}
RecordKinds == {<<1, 0>>, <<2, 2>>, <<3, 0>>}
PostingKinds == {<<1, 0>>, <<2, 0>>}
Summed(gaps) == FoldLeft(LAMBDA a, g : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)]) + g), <<>>, gaps)
\* [term, docs counted from 1, tfs]
ListOf(b, m) == LET fs == Fields(b, m[1], m[2])
                    ps == [i \in DOMAIN Chosen(fs, 4, 2) |-> Fields(b, Chosen(fs, 4, 2)[i][3], Chosen(fs, 4, 2)[i][4])]
                    docs == Summed([i \in DOMAIN ps |-> Num(ps[i], 1)])
                IN [term |-> Str(b, fs, 1), docs |-> [i \in DOMAIN docs |-> docs[i] + 1], tfs |-> [i \in DOMAIN ps |-> Num(ps[i], 2)],
                    ok |-> Known(fs, ListKinds) /\ \A i \in DOMAIN ps : Known(ps[i], PostingKinds)]
RecordOf(b, m) == LET fs == Fields(b, m[1], m[2]) IN [id |-> Num(fs, 1), key |-> Str(b, fs, 2), len |-> Num(fs, 3), ok |-> Known(fs, RecordKinds)]
Ciff(b) == LET ms == Messages(b, 1)
               h == Fields(b, ms[1][1], ms[1][2])
               nl == Num(h, 2) nr == Num(h, 3)
               ls == [i \in 1..nl |-> ListOf(b, ms[i + 1])]
               rs == [i \in 1..nr |-> RecordOf(b, ms[i + 1 + nl])]
           IN [total |-> Num(h, 5), lists |-> ls, records |-> rs,
               ok |-> Known(h, HeaderKinds) /\ (\A i \in DOMAIN ls : ls[i].ok) /\ (\A i \in DOMAIN rs : rs[i].ok /\ rs[i].id = i - 1)]
===========================================================================
