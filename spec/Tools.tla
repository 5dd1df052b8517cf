------------------------------- MODULE Tools -------------------------------
(* The small programs that turn one kind of file into another.  A matrix is    *)
(* the identifiers of its columns (queries) and a row for each document: its   *)
(* identifier and one value for each query (1: yes, -1: no, 0: not known).     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
Columns(m) == 1..Len(m.queries)
Value(m, q, d) ==
  LET at == {<<r, c>> \in (1..Len(m.rows)) \X Columns(m) : m.rows[r][1] = d /\ m.queries[c] = q /\ m.rows[r][2][c] # 0}
  IN IF at = {} THEN 0 ELSE LET x == CHOOSE x \in at : \A y \in at : x[1] > y[1] \/ (x[1] = y[1] /\ x[2] >= y[2]) IN m.rows[x[1]][2][x[2]]
PriceOf(docs, d) == IF \E i \in DOMAIN docs : docs[i][1] = d THEN (CHOOSE x \in Range(docs) : x[1] = d)[2] ELSE 0

(* ---- assessments: the prices in the order given, then query by query the    *)
(* documents judged, in order, 1 for relevant and 0 for judged not to be       *)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Judgements(m) == {<<m.queries[c], m.rows[r][1], IF Value(m, m.queries[c], m.rows[r][1]) = 1 THEN 1 ELSE 0>> :
                    <<r, c>> \in {x \in (1..Len(m.rows)) \X Columns(m) : Value(m, m.queries[x[2]], m.rows[x[1]][1]) # 0}}
AssessmentsOk(docs, m, prices, lines) ==
  /\ prices = docs
  /\ Range(lines) = Judgements(m)
  /\ \A i \in 1..(Len(lines) - 1) : Before(lines[i], lines[i + 1])

(* ---- a run: for each query of the run the documents it returns that are not  *)
(* in the training data, the cheapest first                                     *)
Returned(run, training, c) ==
  {d \in {run.rows[r][1] : r \in 1..Len(run.rows)} : Value(run, run.queries[c], d) = 1 /\ Value(training, run.queries[c], d) = 0}
Cheaper(docs, a, b) == PriceOf(docs, a) < PriceOf(docs, b) \/ (PriceOf(docs, a) = PriceOf(docs, b) /\ a < b)
Ranked(docs, run, training, c) ==
  LET s == SetToSortSeq(Returned(run, training, c), LAMBDA a, b : Cheaper(docs, a, b)) n == Len(s)
  IN [i \in 1..n |-> <<run.queries[c], s[i], i, n - i + 1>>]
RECURSIVE RunLines(_, _, _, _)
RunLines(docs, run, training, c) ==
  IF c > Len(run.queries) THEN <<>> ELSE Ranked(docs, run, training, c) \o RunLines(docs, run, training, c + 1)

(* ---- lists of integers in binary, made readable: a list cut short is refused *)
Readable(lists, cut) == [i \in 1..Len(lists) |-> <<ToString(Len(lists[i]))>> \o lists[i]] \o (IF cut THEN <<<<"i/o error">>>> ELSE <<>>)

(* ---- Fletcher's checksum of 16 bits                                          *)
Fletcher(bytes) ==
  LET step(s, b) == LET x == (s[1] + b) % 255 IN <<x, (s[2] + x) % 255>>
      s == FoldLeft(step, <<0, 0>>, bytes)
  IN s[2] * 256 + s[1]
=============================================================================
