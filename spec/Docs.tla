----------------------------------- MODULE Docs -----------------------------------
(* Which documents a stream of bytes holds: <<primary key, contents>> in order.  Nothing here knows of buffers. *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
LOCAL Has(t, i, what) == i + Len(what) - 1 <= Len(t) /\ \A k \in 1..Len(what) : t[i + k - 1] = what[k]
\* where `what` first occurs in t from i, 0 if nowhere
Find(t, i, what) == LET at == {k \in i..Len(t) : t[k] = what[1] /\ Has(t, k, what)} IN IF at = {} THEN 0 ELSE CHOOSE k \in at : \A o \in at : k <= o
White == (9..13) \cup {32}
RECURSIVE TrimLeft(_)
TrimLeft(s) == IF s # <<>> /\ s[1] \in White THEN TrimLeft(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ s[Len(s)] \in White THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
Unknown == <<85, 110, 107, 110, 111, 119, 110>>

(* ---- marked up documents ---- *)
TrecTags == [open |-> <<60, 68, 79, 67, 62>>, close |-> <<60, 47, 68, 79, 67, 62>>,
             key |-> <<60, 68, 79, 67, 78, 79, 62>>, endkey |-> <<60, 47, 68, 79, 67, 78, 79, 62>>]
HtmlTags == [open |-> <<60, 104, 116, 109, 108>>, close |-> <<60, 47, 104, 116, 109, 108, 62>>,
             key |-> <<60, 116, 105, 116, 108, 101, 62>>, endkey |-> <<60, 47, 116, 105, 116, 108, 101, 62>>]
TagKey(g, d) == LET s == Find(d, 1, g.key)
                    from == s + Len(g.key)
                    e == Find(d, from, g.endkey)
                IN IF s = 0 \/ e = 0 THEN Unknown ELSE TrimRight(TrimLeft(SubSeq(d, from, e - 1)))
RECURSIVE TaggedFrom(_, _, _)
TaggedFrom(g, t, i) ==
  LET s == Find(t, i, g.open)
      e == Find(t, s, g.close)
      d == SubSeq(t, s, e + Len(g.close) - 1)
  IN IF s = 0 \/ e = 0 THEN <<>> ELSE << <<TagKey(g, d), d>> >> \o TaggedFrom(g, t, e + Len(g.close))
Tagged(g, t) == TaggedFrom(g, t, 1)
\* what a buffer must hold: a document, or what lies between two documents and the tag that opens the next
RECURSIVE TaggedNeedFrom(_, _, _)
TaggedNeedFrom(g, t, i) ==
  LET s == Find(t, i, g.open)
      e == Find(t, s, g.close)
      need == <<s + Len(g.open) - i, (IF e = 0 THEN Len(t) + 1 ELSE e + Len(g.close)) - s>>
      more == IF e = 0 THEN 0 ELSE TaggedNeedFrom(g, t, e + Len(g.close))
      Most(a, b) == IF a > b THEN a ELSE b
  IN IF s = 0 THEN 0 ELSE Most(Most(need[1], need[2]), more)
TaggedNeed(g, t) == TaggedNeedFrom(g, t, 1)

(* ---- FASTA: a record starts with '>' at the start of a line (the first wherever it is) ---- *)
RECURSIVE FastaFrom(_, _)
FastaFrom(t, s) ==
  LET e == Find(t, s + 1, <<10, 62>>)
      d == SubSeq(t, s, IF e = 0 THEN Len(t) ELSE e)
      nl == Find(d, 1, <<10>>)
      key == TrimRight(SubSeq(d, 1, IF nl = 0 THEN Len(d) ELSE nl))
  IN << <<key, d>> >> \o (IF e = 0 THEN <<>> ELSE FastaFrom(t, e + 1))
Fasta(t) == LET s == Find(t, 1, <<62>>) IN IF s = 0 THEN <<>> ELSE FastaFrom(t, s)
RECURSIVE FastaNeedFrom(_, _)
FastaNeedFrom(t, s) == LET e == Find(t, s + 1, <<10, 62>>)
                           n == IF e = 0 THEN Len(t) - s + 2 ELSE e + 2 - s
                           more == IF e = 0 THEN 0 ELSE FastaNeedFrom(t, e + 1)
                       IN IF n > more THEN n ELSE more
FastaNeed(t) == LET s == Find(t, 1, <<62>>) IN IF s = 0 THEN 0 ELSE IF s > FastaNeedFrom(t, s) THEN s ELSE FastaNeedFrom(t, s)

(* ---- WARC: for each record with a WARC-TREC-ID, what its Content-Length says, counted from the end of that line ---- *)
TrecId == <<87, 65, 82, 67, 45, 84, 82, 69, 67, 45, 73, 68, 58>>
LengthTag == <<67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104, 58>>
\* <<value, where the next line starts>> of the first whole line from i that starts with `tag`, <<>> if there is none
RECURSIVE Header(_, _, _)
Header(t, i, tag) == LET nl == Find(t, i, <<10>>)
                     IN IF i > Len(t) \/ nl = 0 THEN <<>>
                        ELSE IF Has(SubSeq(t, 1, nl), i, tag) THEN <<TrimRight(TrimLeft(SubSeq(t, i + Len(tag), nl - 1))), nl + 1>>
                        ELSE Header(t, nl + 1, tag)
Decimal(s) == FoldLeft(LAMBDA n, b : IF n > 1000000 THEN n ELSE n * 10 + (b - 48), 0, s)
RECURSIVE WarcFrom(_, _)
WarcFrom(t, i) ==
  LET id == Header(t, i, TrecId)
      len == IF id = <<>> THEN <<>> ELSE Header(t, id[2], LengthTag)
      n == Decimal(len[1])
  IN IF id = <<>> \/ len = <<>> THEN <<>>
     ELSE << <<id[1], SubSeq(t, len[2], IF len[2] + n - 1 < Len(t) THEN len[2] + n - 1 ELSE Len(t))>> >> \o WarcFrom(t, len[2] + n)
Warc(t) == WarcFrom(t, 1)

(* ---- uniCOIL: one line per document, {"id": "key", ... "vector": {contents}} ---- *)
IdTag == <<123, 34, 105, 100, 34, 58, 32, 34>>
VectorTag == <<34, 118, 101, 99, 116, 111, 114, 34, 58, 32, 123>>
RECURSIVE LinesFrom(_, _)
LinesFrom(t, i) == LET nl == Find(t, i, <<10>>) IN IF i > Len(t) THEN <<>> ELSE IF nl = 0 THEN <<SubSeq(t, i, Len(t))>> ELSE <<SubSeq(t, i, nl - 1)>> \o LinesFrom(t, nl + 1)
CoilLine(l) == LET q == Find(l, 9, <<34>>)
                   v == Find(l, 1, VectorTag)
               IN <<SubSeq(l, 9, q - 1), SubSeq(l, v + Len(VectorTag), Len(l) - 2)>>
Coil(t) == LET ls == SelectSeq(LinesFrom(t, 1), LAMBDA l : l # <<>>) IN [k \in DOMAIN ls |-> CoilLine(ls[k])]

\* the documents of a text read through a buffer of `size` bytes (0: as large as it takes)
SplitOk(kind, size, t, docs, after) ==
  /\ after = 0
  /\ CASE kind = "trec" -> size >= TaggedNeed(TrecTags, t) => docs = Tagged(TrecTags, t)
       [] kind = "html" -> docs = Tagged(HtmlTags, t)
       [] kind = "fasta" -> size >= FastaNeed(t) => docs = Fasta(t)
       [] kind = "warc" -> docs = Warc(t)
       [] kind = "coil" -> docs = Coil(t)
===================================================================================
