---------------------------- MODULE Eval ----------------------------
(* Effectiveness measures, in fixed point: a score of one is 1000000.  A topic's judgements are a function from the documents
   judged to their grades (relevant: not zero), prices a function from documents to what they cost; a run is a sequence of
   distinct documents, best first; depth 0 means the whole run. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt
One == 1000000
RECURSIVE Digits(_, _, _, _)
Digits(r, d, n, acc) == IF n = 0 THEN acc ELSE Digits((r * 10) % d, d, n - 1, acc * 10 + ((r * 10) \div d))
Div(n, d) == Digits(n % d, d, 6, n \div d)                      \* n / d, for d up to two hundred million
Lesser(a, b) == IF a < b THEN a ELSE b
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Seen(run, depth) == IF depth = 0 THEN run ELSE SubSeq(run, 1, Lesser(depth, Len(run)))
Relevant(j) == {d \in DOMAIN j : j[d] # 0}
Hit(j, d) == d \in DOMAIN j /\ j[d] # 0
Hits(j, s) == Cardinality({i \in 1..Len(s) : Hit(j, s[i])})
First(j, s) == Min({i \in 1..Len(s) : Hit(j, s[i])} \cup {Len(s) + 1})          \* the rank of the first relevant document
Rank(j, s, k) == CHOOSE i \in 1..Len(s) : Hit(j, s[i]) /\ Hits(j, SubSeq(s, 1, i)) = k   \* ... of the k-th
Looked(run, depth) == IF depth = 0 THEN Len(run) ELSE depth
Wanted(j, depth) == IF depth = 0 THEN Cardinality(Relevant(j)) ELSE Lesser(depth, Cardinality(Relevant(j)))

Returned(j, run) == Hits(j, run) * One
Precision(j, run, depth) == IF run = <<>> THEN 0 ELSE Div(Hits(j, Seen(run, depth)), Looked(run, depth))
Recall(j, run, depth) == IF Relevant(j) = {} THEN One ELSE Div(Hits(j, Seen(run, depth)), Wanted(j, depth))
F(j, run, depth) == LET h == Hits(j, Seen(run, depth)) IN IF h = 0 THEN 0 ELSE Div(2 * h, Looked(run, depth) + Wanted(j, depth))
AP(j, run, depth) ==
  LET s == Seen(run, depth) IN
  IF Relevant(j) = {} THEN One
  ELSE Sum([i \in 1..Len(s) |-> IF Hit(j, s[i]) THEN Div(Hits(j, SubSeq(s, 1, i)), i) ELSE 0]) \div Cardinality(Relevant(j))
RR(j, run, depth) == LET s == Seen(run, depth) f == First(j, s) IN IF f > Len(s) THEN 0 ELSE Div(1, f)
\* the mean of the reciprocal ranks of the first k relevant documents, nothing when there are not as many
RRK(j, run, depth, k) == LET s == Seen(run, depth) IN IF Hits(j, s) < k THEN 0 ELSE Sum([n \in 1..k |-> Div(1, Rank(j, s, n))]) \div k
\* p in thousandths
RECURSIVE Power(_, _)
Power(p, n) == IF n = 0 THEN One ELSE (Power(p, n - 1) * p) \div 1000
RBP(j, run, depth, p) == LET s == Seen(run, depth) IN
  ((Sum([i \in 1..Len(s) |-> IF Hit(j, s[i]) THEN Power(p, i - 1) ELSE 0]) \div 20) * (1000 - p)) \div 50
\* how many documents a reader goes through for nothing, `depth` when there is nothing to find
ESL(j, run, depth) == LET s == Seen(run, depth) f == First(j, s) IN IF f > Len(s) THEN depth * One ELSE (f - 1) * One

Cost(c, d) == IF d \in DOMAIN c THEN c[d] ELSE 0
Prices(j, c) == LET q == SetToSeq(Relevant(j)) IN SortSeq([i \in 1..Len(q) |-> Cost(c, q[i])], <)    \* cheapest first
Spent(c, s) == Sum([i \in 1..Len(s) |-> Cost(c, s[i])])
BP(j, c, run, depth) == LET s == Seen(run, depth) f == First(j, s) IN
  IF Relevant(j) = {} THEN One ELSE IF f > Len(s) THEN 0 ELSE Div(Prices(j, c)[1], Spent(c, SubSeq(s, 1, f)))
BPK(j, c, run, depth, k) == LET s == Seen(run, depth) IN
  IF Cardinality(Relevant(j)) < k \/ Hits(j, s) < k THEN 0 ELSE Div(Sum(SubSeq(Prices(j, c), 1, k)), Spent(c, SubSeq(s, 1, Rank(j, s, k))))
SP(j, c, run, depth) == LET n == Wanted(j, depth) s == Seen(run, n) IN
  IF Relevant(j) = {} THEN One
  ELSE Sum([i \in 1..Len(s) |-> IF Hit(j, s[i]) THEN Div(Prices(j, c)[Hits(j, SubSeq(s, 1, i))], Cost(c, s[i])) ELSE 0]) \div n
\* as precision, but only the cheapest relevant documents count: as many as the reader looks at, and what costs the same as the last of those
CP(j, c, run, depth) == LET s == Seen(run, depth) pr == Prices(j, c) n == Lesser(Len(s), Len(pr)) IN
  IF run = <<>> THEN 0 ELSE IF Relevant(j) = {} THEN One
  ELSE Div(Cardinality({i \in 1..Len(s) : Hit(j, s[i]) /\ Cost(c, s[i]) <= pr[n]}), Looked(run, depth))
\* 1 / log2(i + 1)
Discount == <<1000000, 630930, 500000, 430677, 386853, 356207, 333333, 315465, 301030, 289065, 278943, 270238, 262650, 255958, 250000,
              244651, 239812, 235409, 231378, 227670, 224244, 221065, 218104, 215338, 212746>>
Gained(g, n) == Sum([i \in 1..n |-> g[i] * Discount[i]])            \* of small integer gains
\* the classes a price can fall in: edges at (e^i - 1) / (e^5 - 1) of the range of prices
Edge == <<0, 116562, 433412, 1294697, 3635914>>
Grade(pr, x) == LET low == pr[1] range == pr[Len(pr)] - pr[1] IN 6 - Cardinality({b \in 1..5 : (x - low) * 10000000 >= range * Edge[b] /\ x >= low})
PBN(j, c, run, depth) == LET s == Seen(run, depth) pr == Prices(j, c) n == Wanted(j, depth) IN
  IF Relevant(j) = {} THEN One
  ELSE Div(Gained([i \in 1..Len(s) |-> IF Hit(j, s[i]) THEN Grade(pr, Cost(c, s[i])) ELSE 0], Len(s)), Gained([i \in 1..n |-> Grade(pr, pr[i])], n))
Worth(low, x, i) == (low * Discount[i]) \div x
BPN(j, c, run, depth) == LET s == Seen(run, depth) pr == Prices(j, c) n == Wanted(j, depth) IN
  IF Relevant(j) = {} THEN One
  ELSE Div(Sum([i \in 1..Len(s) |-> IF Hit(j, s[i]) THEN Worth(pr[1], Cost(c, s[i]), i) ELSE 0]), Sum([i \in 1..n |-> Worth(pr[1], pr[i], i)]))

\* every measure of a topic, by name
Scores(j, c, run, depth, k, p) ==
  [RelRet |-> Returned(j, run), P |-> Precision(j, run, depth), R |-> Recall(j, run, depth), F1 |-> F(j, run, depth), MAP |-> AP(j, run, depth),
   MRR |-> RR(j, run, depth), MRR4K |-> RRK(j, run, depth, k), RBP |-> RBP(j, run, depth, p), ESL |-> ESL(j, run, depth)]
PriceScores(j, c, run, depth, k) ==
  [PC |-> CP(j, c, run, depth), SP |-> SP(j, c, run, depth), BP |-> BP(j, c, run, depth), BP4K |-> BPK(j, c, run, depth, k),
   PBnDCG |-> PBN(j, c, run, depth), BPnDCG |-> BPN(j, c, run, depth)]
Near(a, b, slack) == a - b <= slack /\ b - a <= slack
=============================================================================
