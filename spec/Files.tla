---------------------------------- MODULE Files ----------------------------------
(* Files, streams of bytes and channels as their users see them: bytes at positions, with no buffer anywhere. *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

(* ---- an open file: [data, at] ---- *)
Zeros(n) == [i \in 1..n |-> 0]
WriteAt(d, at, b) == IF b = <<>> THEN d
                     ELSE (IF at <= Len(d) THEN SubSeq(d, 1, at) ELSE d \o Zeros(at - Len(d))) \o b \o SubSeq(d, at + Len(b) + 1, Len(d))
ReadAt(d, at, n) == SubSeq(d, at + 1, IF at + n < Len(d) THEN at + n ELSE Len(d))

(* ---- the lines of a text, none of them empty ---- *)
Ends == {10, 13}
RECURSIVE LinesFrom(_, _)
LinesFrom(t, i) == IF i > Len(t) THEN <<>>
                   ELSE IF t[i] \in Ends THEN LinesFrom(t, i + 1)
                   ELSE LET at == {k \in i..Len(t) : t[k] \in Ends}
                            e == IF at = {} THEN Len(t) + 1 ELSE CHOOSE k \in at : \A o \in at : k <= o
                        IN << SubSeq(t, i, e - 1) >> \o LinesFrom(t, e)
Lines(t) == LinesFrom(t, 1)

(* ---- a source of bytes: however many are asked for at a time, the answers are the source from its beginning on ---- *)
RECURSIVE ReadsFrom(_, _, _, _)
ReadsFrom(all, at, asked, got) ==
  IF asked = <<>> THEN TRUE ELSE /\ Head(got) = ReadAt(all, at, Head(asked))
                                 /\ ReadsFrom(all, at + Len(Head(got)), Tail(asked), Tail(got))
ReadsOk(all, asked, got) == Len(asked) = Len(got) /\ ReadsFrom(all, 0, asked, got)
Concat(parts) == FoldLeft(LAMBDA a, b : a \o b, <<>>, parts)
\* the files of a directory come in some order, each whole
Orders(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
DirectoryOk(files, asked, got) == \E p \in Orders(Len(files)) : ReadsOk(Concat([i \in 1..Len(files) |-> files[p[i]]]), asked, got)
\* a source that is damaged: what comes before the damage, as far as it could be had, and then nothing more
DamagedOk(all, asked, got) == LET have == Concat(got) IN
  /\ Len(asked) = Len(got) /\ \A i \in DOMAIN got : Len(got[i]) <= asked[i]
  /\ have = SubSeq(all, 1, Len(have))
  /\ \A i, j \in DOMAIN got : i < j /\ Len(got[i]) < asked[i] => got[j] = <<>>
SourceOk(kind, parts, asked, got) ==
  CASE kind \in {"memory", "file", "stream", "gz"} -> ReadsOk(Concat(parts), asked, got)
    [] kind = "directory" -> DirectoryOk(parts, asked, got)
    [] kind = "damaged" -> DamagedOk(Concat(parts), asked, got)

(* ---- channels: text in and out ---- *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
Sent(item) == CASE item.k = "text" -> item.v [] item.k = "line" -> Append(item.v, 10)
                [] item.k = "number" -> IF item.neg THEN <<45>> \o Digits(item.n) ELSE Digits(item.n)
SentAll(items) == Concat([i \in DOMAIN items |-> Sent(items[i])])
\* the length of what comes next: up to and with the end of the line, or n bytes
NextLength(t, at, ask) == IF ask > 0 THEN Len(ReadAt(t, at, ask))
                          ELSE LET e == {k \in at+1..Len(t) : t[k] = 10} IN IF e = {} THEN Len(t) - at ELSE (CHOOSE k \in e : \A o \in e : k <= o) - at
RECURSIVE HeardFrom(_, _, _, _)
HeardFrom(t, at, asks, got) == IF asks = <<>> THEN TRUE ELSE LET n == NextLength(t, at, Head(asks)) IN
  Head(got) = SubSeq(t, at + 1, at + n) /\ HeardFrom(t, at + n, Tail(asks), Tail(got))
HeardOk(t, asks, got) == Len(asks) = Len(got) /\ HeardFrom(t, 0, asks, got)

(* ---- topics: for each number, the words of the elements asked for, until the next number ---- *)
K == INSTANCE Tokens
TagNum == <<110, 117, 109>>
TagTopic == <<116, 111, 112, 105, 99>>
TagQuery == <<113, 117, 101, 114, 121>>
TagTitle == <<116, 105, 116, 108, 101>>
TagDesc == <<100, 101, 115, 99>>
TagNarr == <<110, 97, 114, 114>>
Wanted(lex, tags) == \/ (lex = TagQuery /\ 113 \in tags) \/ (lex = TagTitle /\ 116 \in tags)
                     \/ (Len(lex) >= 4 /\ SubSeq(lex, 1, 4) = TagDesc /\ 100 \in tags) \/ (lex = TagNarr /\ 110 \in tags)
\* lines with their ends; each is tokenised on its own
RECURSIVE Kept(_, _)
Kept(t, i) == IF i > Len(t) THEN <<>> ELSE LET n == NextLength(t, i - 1, 0) IN << SubSeq(t, i, i + n - 1) >> \o Kept(t, i + n)
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE Value(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
FirstNumber(line) == LET at == {k \in DOMAIN line : line[k] \in 48..57} IN
  IF at = {} THEN 0 ELSE LET s == CHOOSE k \in at : \A o \in at : k <= o
                             e == CHOOSE k \in s..Len(line) : (\A o \in s..k : line[o] \in 48..57) /\ (k = Len(line) \/ line[k + 1] \notin 48..57)
                         IN Value(SubSeq(line, s, e))
\* q: [open, number, words, match, wait, out]; wait: the number is yet to come
Query(q) == Digits(q.number) \o <<32>> \o q.words
Begin(q, number, wait) == [open |-> TRUE, number |-> number, words |-> <<>>, match |-> FALSE, wait |-> wait,
                           out |-> IF q.open THEN Append(q.out, Query(q)) ELSE q.out]
TopicToken(q, tok, line, tags) ==
  IF q.wait THEN (IF tok[1] = 1 THEN [q EXCEPT !.number = Value(tok[2]), !.wait = FALSE] ELSE q)
  ELSE IF tok[1] \in {0, 1} THEN (IF q.match THEN [q EXCEPT !.words = @ \o tok[2] \o <<32>>] ELSE q)
  ELSE IF tok[1] # K!Start THEN q
  ELSE IF tok[2] = TagNum THEN Begin(q, 0, TRUE)
  ELSE IF tok[2] = TagTopic THEN Begin(q, FirstNumber(line), FALSE)
  ELSE [q EXCEPT !.match = Wanted(tok[2], tags)]
TopicLine(q, line, cls, tags) == [FoldLeft(LAMBDA a, tok : TopicToken(a, tok, line, tags), q, K!DocTokens(line, cls)) EXCEPT !.wait = FALSE]
Topics(t, cls, tags) ==
  LET q == FoldLeft(LAMBDA a, line : TopicLine(a, line, cls, tags), [open |-> FALSE, number |-> 0, words |-> <<>>, match |-> FALSE, wait |-> FALSE, out |-> <<>>], Kept(t, 1))
  IN IF q.open THEN Append(q.out, Query(q)) ELSE q.out
==================================================================================
