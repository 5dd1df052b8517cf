----------------------------- MODULE IndexFiles -----------------------------
(* The two on-disk index formats: what a reader finds in the four files.       *)
(* Reading is a specification of the format; writing (of uncompressed          *)
(* indexes) is here so that the model can check that reading undoes writing.   *)
(* An index is [keys: Seq(bytes), groups: [term bytes -> Seq(<<impact, docs>>)]]*)
(* with impacts decreasing and documents increasing, counted from 1.           *)
EXTENDS Bytes

CodecByte(c) == CASE c = "s" -> 115 [] c = "q" -> 113 [] c = "G" -> 71 [] c = "g" -> 103 [] c = "D" -> 68
Increasing(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]
RECURSIVE Undelta(_, _, _)
Undelta(q, i, sum) == IF i > Len(q) THEN <<>> ELSE <<sum + q[i]>> \o Undelta(q, i + 1, sum + q[i])
\* uncompressed documents: 32-bit differences, the first from document 0
RawDocs(b, from, n) ==
  LET gaps == [i \in 1..n |-> U32(b, from + 4 * (i - 1))]
      sums == FoldLeft(LAMBDA a, g : Append(a, (IF a = <<>> THEN 1 ELSE a[Len(a)]) + g), <<>>, gaps)
  IN sums

(* ---- vocabulary: <<string offset, postings offset, impacts>> per term ---- *)
Vocab1(b) == [i \in 1..(Len(b) \div 24) |-> <<U64(b, 24 * (i - 1)), U64(b, 24 * (i - 1) + 8), U64(b, 24 * (i - 1) + 16)>>]
RECURSIVE Vocab2From(_, _)
Vocab2From(b, o) == IF o >= Len(b) THEN <<>>
                    ELSE LET x == VByte(b, o) y == VByte(b, x[2]) z == VByte(b, y[2])
                         IN <<<<x[1], y[1], z[1]>>>> \o (IF z[1] < 0 \/ z[2] = o THEN <<>> ELSE Vocab2From(b, z[2]))
Vocab(version, b) == IF version = 1 THEN Vocab1(b) ELSE Vocab2From(b, 0)

(* ---- one term's segment headers: [imp, from, to, n] ---- *)
Header1(b, p, j) == LET h == U64(b, p + 8 * (j - 1)) IN [imp |-> U16(b, h), from |-> U64(b, h + 2), to |-> U64(b, h + 10), n |-> U32(b, h + 18), at |-> h]
Headers1(b, p, n) == [j \in 1..n |-> Header1(b, p, j)]
RECURSIVE Headers2(_, _, _)
Headers2(b, p, n) ==
  IF n = 0 THEN <<>>
  ELSE LET i == VByte(b, p) l == VByte(b, i[2]) s == VByte(b, l[2]) f == VByte(b, s[2])
       IN <<[imp |-> i[1], from |-> f[2] + l[1], to |-> f[2] + l[1] + s[1], n |-> f[1], at |-> p]>> \o Headers2(b, f[2], n - 1)
Headers(version, b, p, n) == IF version = 1 THEN Headers1(b, p, n) ELSE Headers2(b, p, n)

Keys1(b) ==
  LET n == U64(b, Len(b) - 8)
      base == Len(b) - 8 - 8 * n
  IN IF n < 0 \/ base < 0 THEN <<>> ELSE [i \in 1..n |-> IF HasCStr(b, U64(b, base + 8 * (i - 1))) THEN CStr(b, U64(b, base + 8 * (i - 1))) ELSE <<0>>]
Keys2(b) ==      \* zero-terminated strings one after another; the first belongs to the unused document 0
  LET names == Split(SubSeq(b, 1, Len(b) - 8), 0)
  IN SubSeq(names, 2, Len(names))
\* (an empty last key would be lost by Split; keys are non-empty)

(* ---- what makes four files a well formed index that says exactly `ix` ---- *)
Says(version, codec, align, vocab, strings, postings, doclist, ix) ==
  \E v \in {Vocab(version, vocab)} :
  \E names \in {[i \in 1..Len(v) |-> IF HasCStr(strings, v[i][1]) THEN CStr(strings, v[i][1]) ELSE <<0>>]} :
     /\ IF version = 1 THEN Len(vocab) % 24 = 0 ELSE TRUE
     /\ Len(v) = Cardinality(DOMAIN ix.groups)
     /\ {names[i] : i \in 1..Len(v)} = DOMAIN ix.groups
     /\ \A i \in 1..(Len(v) - 1) : Lex(names[i], names[i + 1])
     /\ postings[1] = CodecByte(codec)
     /\ \A i \in 1..Len(v) :
          \E g \in {ix.groups[names[i]]} :
          \E h \in {Headers(version, postings, v[i][2], v[i][3])} :
             /\ v[i][3] = Len(g)
             /\ \A j \in 1..Len(g) :
                  /\ h[j].imp = g[j][1] /\ h[j].n = Len(g[j][2])
                  /\ 0 < h[j].from /\ h[j].from < h[j].to /\ h[j].to <= Len(postings)
                  /\ IF version = 1 THEN h[j].from % align = 0 ELSE TRUE
                  /\ IF codec = "s" THEN h[j].to - h[j].from = 4 * h[j].n /\ RawDocs(postings, h[j].from, h[j].n) = g[j][2] ELSE TRUE
                  \* no two segments share bytes
                  /\ \A m \in 1..(j - 1) : h[m].to <= h[j].from \/ h[j].to <= h[m].from
             /\ IF version = 1 THEN LET z == h[Len(g)].at + 22 IN Have(postings, z, 22) /\ \A m \in 1..22 : postings[z + m] = 0 ELSE TRUE
     /\ U64(doclist, Len(doclist) - 8) = Len(ix.keys)
     /\ (IF version = 1 THEN Keys1(doclist) ELSE Keys2(doclist)) = ix.keys

(* ---- a writer of the uncompressed formats, terms in any order ---- *)
Gaps(docs) == [i \in 1..Len(docs) |-> IF i = 1 THEN docs[1] - 1 ELSE docs[i] - docs[i - 1]]
Payload(docs) == Concat([i \in 1..Len(docs) |-> Put32(Gaps(docs)[i])])
WriteTerm1(g, at) ==
  LET n == Len(g)
      start == at + 8 * n + 22 * n + 22
      froms == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + 4 * Len(x[2])), <<start>>, g)
  IN Concat([j \in 1..n |-> Put64(at + 8 * n + 22 * (j - 1))])
     \o Concat([j \in 1..n |-> Put16(g[j][1]) \o Put64(froms[j]) \o Put64(froms[j + 1]) \o Put32(Len(g[j][2]))])
     \o [j \in 1..22 |-> 0] \o Concat([j \in 1..n |-> Payload(g[j][2])])
WriteTerm2(g) ==      \* headers in decreasing impact order, payloads in increasing impact order
  LET n == Len(g)
      up(j) == g[n + 1 - j]
      s == FoldLeft(LAMBDA a, j :
              LET h == PutVB(up(j)[1]) \o PutVB(a.loc) \o PutVB(4 * Len(up(j)[2])) \o PutVB(Len(up(j)[2]))
              IN [loc |-> a.loc + 4 * Len(up(j)[2]) + Len(h), heads |-> h \o a.heads, load |-> a.load \o Payload(up(j)[2])],
           [loc |-> 0, heads |-> <<>>, load |-> <<>>], [j \in 1..n |-> j])
  IN s.heads \o s.load
Write(version, ix, order) ==      \* order: the sequence the terms are written in
  LET body == FoldLeft(LAMBDA a, t :
                 LET at == Len(a.post)
                 IN [post |-> a.post \o (IF version = 1 THEN WriteTerm1(ix.groups[t], at) ELSE WriteTerm2(ix.groups[t])),
                     str |-> a.str \o t \o <<0>>,
                     trip |-> Append(a.trip, <<t, Len(a.str), at, Len(ix.groups[t])>>)],
               [post |-> <<115>>, str |-> <<>>, trip |-> <<>>], order)
      sorted == SortSeq(body.trip, LAMBDA x, y : Lex(x[1], y[1]))
      put(v) == IF version = 1 THEN Put64(v) ELSE PutVB(v)
      keys0 == <<<<45>>>> \o ix.keys
      names == Concat([i \in 1..Len(keys0) |-> keys0[i] \o <<0>>])
      offs == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + Len(x) + 1), <<0>>, keys0)
  IN [vocab |-> Concat([i \in 1..Len(sorted) |-> put(sorted[i][2]) \o put(sorted[i][3]) \o put(sorted[i][4])]),
      strings |-> body.str, postings |-> body.post,
      doclist |-> names \o (IF version = 1 THEN Concat([i \in 1..Len(ix.keys) |-> Put64(offs[i + 1])]) ELSE <<>>) \o Put64(Len(ix.keys))]
=============================================================================
