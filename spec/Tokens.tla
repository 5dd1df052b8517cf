---------------------------------- MODULE Tokens ----------------------------------
(* What the tokens of a document, of a query, of a FASTA record and of a uniCOIL vector are.  A text is a sequence of
   bytes.  `cls` gives the classes of the characters beyond ASCII: a sequence of <<code point, flags, folded>>, flags being
   1 alphabetic, 2 digit, 4 space, 8 starts an XML name, 16 belongs in an XML name; `folded` what it is normalised to. *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

LOCAL MinI(a, b) == IF a < b THEN a ELSE b
Byte(t, i) == IF i \in 1..Len(t) THEN t[i] ELSE 0
Has(t, i, what) == i + Len(what) - 1 <= Len(t) /\ \A k \in 1..Len(what) : t[i + k - 1] = what[k]

(* ---- characters ---- *)
Bad == 65533
Lead(b) == IF b < 128 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4 ELSE 0
\* [cp, n]: the character at i and how many bytes it takes; n = 0 when the bytes there are no character
Char(t, i) ==
  LET n == IF i > Len(t) THEN 0 ELSE Lead(t[i])
      ok == n > 0 /\ i + n - 1 <= Len(t) /\ \A k \in 1..n-1 : t[i + k] \in 128..191
      part(k) == t[i + k] % 64
  IN IF ~ok THEN [cp |-> Bad, n |-> 0]
     ELSE IF n = 1 THEN [cp |-> t[i], n |-> 1]
     ELSE IF n = 2 THEN [cp |-> (t[i] % 32) * 64 + part(1), n |-> 2]
     ELSE IF n = 3 THEN [cp |-> (t[i] % 16) * 4096 + part(1) * 64 + part(2), n |-> 3]
     ELSE LET c == (t[i] % 8) * 262144 + part(1) * 4096 + part(2) * 64 + part(3) IN [cp |-> IF c <= 1114111 THEN c ELSE Bad, n |-> 4]
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

UpperA == 65..90
LowerA == 97..122
DigitA == 48..57
SpaceA == (9..13) \cup {32}
Row(cls, c) == LET at == {k \in DOMAIN cls : cls[k][1] = c} IN cls[CHOOSE k \in at : TRUE]
Flag(cls, c, f) == (Row(cls, c)[2] \div f) % 2 = 1
Alpha(cls, c) == IF c < 128 THEN c \in UpperA \cup LowerA ELSE Flag(cls, c, 1)
Digit(cls, c) == IF c < 128 THEN c \in DigitA ELSE Flag(cls, c, 2)
Space(cls, c) == IF c < 128 THEN c \in SpaceA ELSE Flag(cls, c, 4)
NameStart(cls, c) == IF c < 128 THEN c \in UpperA \cup LowerA \cup {58, 95} ELSE Flag(cls, c, 8)
NameChar(cls, c) == IF c < 128 THEN c \in UpperA \cup LowerA \cup DigitA \cup {58, 95, 45, 46} ELSE Flag(cls, c, 16)
\* normalisation keeps letters and digits
Fold(cls, c) == IF c < 128 THEN (IF c \in UpperA THEN <<c + 32>> ELSE IF c \in LowerA \cup DigitA THEN <<c>> ELSE <<>>) ELSE Row(cls, c)[3]

(* ---- runs ---- *)
Longest == 1024
\* a token keeps whole characters, as many as fit
Add(kept, more, most) == IF Len(kept) + Len(more) <= most THEN kept \o more ELSE kept
AddFolded(cls, kept, c, most) == FoldLeft(LAMBDA k, f : Add(k, Utf8(f), most), kept, Fold(cls, c))
Is(cls, c, kind) == CASE kind = "alpha" -> Alpha(cls, c) [] kind = "digit" -> Digit(cls, c) [] kind = "name" -> NameChar(cls, c) [] kind = "space" -> Space(cls, c)
\* the maximal run of characters of a kind from i: where it ends
RECURSIVE RunEnd(_, _, _, _)
RunEnd(t, cls, i, kind) == LET c == Char(t, i) IN IF i <= Len(t) /\ c.n > 0 /\ Is(cls, c.cp, kind) THEN RunEnd(t, cls, i + c.n, kind) ELSE i
\* what the characters from i up to (not including) e are normalised to
RECURSIVE Folded(_, _, _, _, _, _)
Folded(t, cls, i, e, kept, most) == IF i >= e THEN kept ELSE LET c == Char(t, i) IN Folded(t, cls, i + c.n, e, AddFolded(cls, kept, c.cp, most), most)

First(t, i, what) == LET at == {k \in i..Len(t) : Has(t, k, what)} IN IF i > Len(t) \/ at = {} THEN Len(t) + 1 ELSE CHOOSE k \in at : \A o \in at : k <= o
Cut(t, i, e) == SubSeq(t, i, MinI(e - 1, i + Longest - 1))

(* ---- the tokens of a document ---- *)
Start == 2
Empty == 3
End == 4
Comment == 5
Cdata == 6
Definition == 7
Conditional == 8
Instruction == 9
Other == 10
Tok(type, lex, next) == [type |-> type, lex |-> lex, next |-> next]

SkipSpace(t, cls, i) == RunEnd(t, cls, i, "space")
\* where a tag whose name ended at i is closed: the first '>' outside quotation marks
RECURSIVE Close(_, _)
Close(t, i) == IF i > Len(t) \/ t[i] = 62 THEN i
               ELSE IF t[i] \in {34, 39} THEN Close(t, First(t, i + 1, <<t[i]>>) + 1)
               ELSE Close(t, i + 1)

Markup(t, cls, i) ==      \* t[i] is the character after a '<'
  LET c == Char(t, i)
      body(type, from, until) == LET e == First(t, from, until) IN Tok(type, Cut(t, from, e), e + Len(until))
  IN IF c.n > 0 /\ NameStart(cls, c.cp)
     THEN LET e == RunEnd(t, cls, i, "name")
              close == Close(t, e)
          IN Tok(IF close <= Len(t) + 1 /\ t[close - 1] = 47 THEN Empty ELSE Start, Cut(t, i, e), close + 1)
     ELSE IF Byte(t, i) = 47
     THEN LET n == Char(t, i + 1) IN IF n.n > 0 /\ NameStart(cls, n.cp) THEN body(End, i + 1, <<62>>) ELSE Tok(Other, <<60>>, i)
     ELSE IF Byte(t, i) = 63 THEN body(Instruction, i + 1, <<63, 62>>)
     ELSE IF Byte(t, i) = 33
     THEN IF Has(t, i + 1, <<45, 45>>) /\ i + 5 <= Len(t) THEN body(Comment, i + 3, <<45, 45, 62>>)
          ELSE IF Byte(t, i + 1) \in UpperA THEN body(Definition, i + 1, <<62>>)
          ELSE IF Has(t, i + 1, <<91, 67, 68, 65, 84, 65, 91>>) /\ i + 10 <= Len(t) THEN body(Cdata, i + 8, <<93, 93, 62>>)
          ELSE IF Has(t, i + 1, <<91>>) /\ i + 5 <= Len(t) THEN body(Conditional, i + 2, <<91>>)
          ELSE Tok(Other, <<33>>, i + 1)
     ELSE Tok(Other, <<60>>, i)

DocToken(t, cls, at) ==
  LET i == SkipSpace(t, cls, at)
      c == Char(t, i)
      e(kind) == RunEnd(t, cls, i, kind)
  IN IF i > Len(t) THEN Tok(11, <<>>, i)
     ELSE IF c.n > 0 /\ Alpha(cls, c.cp) THEN Tok(0, Folded(t, cls, i, e("alpha"), <<>>, Longest), e("alpha"))
     ELSE IF c.n > 0 /\ Digit(cls, c.cp) THEN Tok(1, Folded(t, cls, i, e("digit"), <<>>, Longest), e("digit"))
     ELSE IF t[i] = 60 THEN Markup(t, cls, i + 1)
     ELSE IF t[i] < 128 THEN Tok(Other, <<t[i]>>, i + 1)
     ELSE Tok(Other, AddFolded(cls, <<>>, c.cp, Longest), i + (IF c.n = 0 THEN 1 ELSE c.n))

RECURSIVE DocTokensFrom(_, _, _)
DocTokensFrom(t, cls, i) == LET k == DocToken(t, cls, i) IN IF k.type = 11 THEN <<>> ELSE << <<k.type, k.lex, 1>> >> \o DocTokensFrom(t, cls, k.next)
DocTokens(t, cls) == DocTokensFrom(t, cls, 1)

(* ---- FASTA: the tokens of the first line, then every window of k consecutive bases, white space ignored ---- *)
Bases == {65, 67, 71, 84, 97, 99, 103, 116}
Lower(b) == IF b \in UpperA THEN b + 32 ELSE b
Windows(s, k) == LET ok == SelectSeq([i \in 1..(IF Len(s) >= k THEN Len(s) - k + 1 ELSE 0) |-> i], LAMBDA i : \A j \in 0..k-1 : s[i + j] \in Bases)
                 IN [n \in DOMAIN ok |-> << 0, [j \in 1..k |-> Lower(s[ok[n] + j - 1])], 1 >>]
FastaTokens(t, cls, k) ==
  LET nl == First(t, 1, <<10>>) IN DocTokens(SubSeq(t, 1, nl - 1), cls) \o Windows(SelectSeq(SubSeq(t, nl, Len(t)), LAMBDA b : b \notin SpaceA), k)

(* ---- a uniCOIL vector: "term": impact, ... ---- *)
LargestImpact == 1024
\* the end of the string that starts at i (after the quotation mark); a backslash takes the next byte with it
RECURSIVE StringEnd(_, _)
StringEnd(t, i) == IF i > Len(t) \/ t[i] = 34 THEN i ELSE IF t[i] = 92 THEN StringEnd(t, i + 2) ELSE StringEnd(t, i + 1)
RECURSIVE Number(_, _, _)
Number(t, i, sofar) == IF i > Len(t) \/ t[i] \notin DigitA THEN sofar ELSE Number(t, i + 1, MinI(sofar * 10 + (t[i] - 48), 100000))
RECURSIVE VectorFrom(_, _)
VectorFrom(t, i) ==
  LET q == First(t, i, <<34>>)
      e == StringEnd(t, q + 1)
      digits == {k \in e+1..Len(t) : t[k] \in DigitA}
      d == CHOOSE k \in digits : \A o \in digits : k <= o
      n == Number(t, d, 0)
      after == {k \in d..Len(t) : t[k] \notin DigitA}
  IN IF q > Len(t) \/ e > Len(t) \/ digits = {} THEN <<>>
     ELSE (IF n = 0 THEN <<>> ELSE << <<0, Cut(t, q + 1, e), MinI(n, LargestImpact)>> >>)
          \o (IF after = {} THEN <<>> ELSE VectorFrom(t, CHOOSE k \in after : \A o \in after : k <= o))
Vector(t) == VectorFrom(t, 1)

Tokens(kind, t, cls, k) == IF kind = "doc" THEN DocTokens(t, cls) ELSE IF kind = "fasta" THEN FastaTokens(t, cls, k) ELSE Vector(t)

(* ---- a query: its words and how often each occurs ---- *)
RECURSIVE WordsFrom(_, _, _)
WordsFrom(t, cls, i) ==
  LET c == Char(t, i)
      e(kind) == RunEnd(t, cls, i, kind)
      take(kind) == << Folded(t, cls, i, e(kind), <<>>, 1000000) >> \o WordsFrom(t, cls, e(kind))
  IN IF i > Len(t) THEN <<>>
     ELSE IF c.n > 0 /\ Alpha(cls, c.cp) THEN take("alpha")
     ELSE IF c.n > 0 /\ Digit(cls, c.cp) THEN take("digit")
     ELSE WordsFrom(t, cls, i + (IF c.n = 0 THEN 1 ELSE c.n))
RECURSIVE RawFrom(_, _)
RawFrom(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE IF t[i] \in SpaceA THEN RawFrom(t, i + 1)
  ELSE LET stop == {k \in i..Len(t) : t[k] \in SpaceA}
           e == IF stop = {} THEN Len(t) + 1 ELSE CHOOSE k \in stop : \A o \in stop : k <= o
       IN << SubSeq(t, i, e - 1) >> \o RawFrom(t, e)
Words(kind, t, cls) == IF kind = "raw" THEN RawFrom(t, 1) ELSE WordsFrom(t, cls, 1)
Counted(words) == {<<words[i], Cardinality({j \in DOMAIN words : words[j] = words[i]})>> : i \in DOMAIN words}
QueryOk(kind, t, cls, terms) == /\ {<<terms[i][1], terms[i][2]>> : i \in DOMAIN terms} = Counted(Words(kind, t, cls))
                                /\ \A i, j \in DOMAIN terms : i # j => terms[i][1] # terms[j][1]
===================================================================================
