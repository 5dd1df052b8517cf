------------------------------- MODULE Whole -------------------------------
(* The programs, end to end: a collection becomes an index, an index and a file of queries become a ranking.  Made of the parts'
   own specifications; all texts are sequences of bytes. *)
EXTENDS SearchContract
D == INSTANCE Docs
K == INSTANCE Tokens
P == INSTANCE Porter
F == INSTANCE Files
B == INSTANCE Bm25
I == INSTANCE Ciff

(* ---- what a collection says ---- *)
DocsOfText(fmt, t) == IF fmt = "trec" THEN D!Tagged(D!TrecTags, t) ELSE IF fmt = "fasta" THEN D!Fasta(t) ELSE D!Coil(t)
Kind(fmt) == IF fmt = "trec" THEN "doc" ELSE IF fmt = "fasta" THEN "fasta" ELSE "vector"
\* the terms of a document in order with their weights: words and numbers, words of three bytes and more stemmed if asked for
TermsOfDoc(fmt, d, cls, kmer, stem) ==
  LET toks == SelectSeq(K!Tokens(Kind(fmt), d, cls, kmer), LAMBDA k : k[1] \in {0, 1})
  IN [i \in DOMAIN toks |-> <<IF stem /\ toks[i][1] = 0 /\ Len(toks[i][2]) > 2 THEN P!Stem(toks[i][2]) ELSE toks[i][2], toks[i][3]>>]
MaxWeight == 1024
Weight(terms, w) == Min2(MaxWeight, FoldLeft(LAMBDA a, k : IF k[1] = w THEN a + k[2] ELSE a, 0, terms))
\* [keys, lens, weights: per document, term -> weight]
Collection(e) ==
  LET docs == TLCEval(DocsOfText(e.fmt, e.text))
      terms == TLCEval([i \in DOMAIN docs |-> TermsOfDoc(e.fmt, docs[i][2], e.classes, e.kmer, e.stem)])
  IN [keys |-> [i \in DOMAIN docs |-> docs[i][1]], lens |-> [i \in DOMAIN docs |-> Len(terms[i])], how |-> IF e.fmt = "json" THEN "exact" ELSE "bm25", all |-> Len(docs),
      atire |-> e.atire, weights |-> [i \in DOMAIN docs |-> [w \in {terms[i][j][1] : j \in DOMAIN terms[i]} |-> Weight(terms[i], w)]]]
\* an index made elsewhere: its postings; the lists are of different terms, each in the order of its documents
Imported(e, x) ==
  LET n == Len(x.records)
      W(d) == LET in == {i \in DOMAIN x.lists : \E j \in DOMAIN x.lists[i].docs : x.lists[i].docs[j] = d}
              IN [w \in {x.lists[i].term : i \in in} |-> LET l == x.lists[CHOOSE i \in in : x.lists[i].term = w] IN Min2(MaxWeight, l.tfs[CHOOSE j \in DOMAIN l.docs : l.docs[j] = d])]
  IN [keys |-> [i \in 1..n |-> x.records[i].key], lens |-> [i \in 1..n |-> x.records[i].len], how |-> e.mode, all |-> x.total, atire |-> FALSE,
      weights |-> TLCEval([i \in 1..n |-> W(i)])]
TotalLength(c) == FoldLeft(LAMBDA a, n : a + n, 0, c.lens)
Vocabulary(c) == UNION {DOMAIN c.weights[i] : i \in DOMAIN c.weights}
Holding(c, w) == {i \in DOMAIN c.weights : w \in DOMAIN c.weights[i]}

(* ---- an index as its dump shows it: [keys, terms: sequence of <<term, sequence of <<impact, documents>>>>] ---- *)
\* the dump counts documents from 0
Shown(e) == [keys |-> e.keys, terms |-> [i \in DOMAIN e.terms |-> <<e.terms[i][1],
              [j \in DOMAIN e.terms[i][2] |-> <<e.terms[i][2][j][1], [k \in DOMAIN e.terms[i][2][j][2] |-> e.terms[i][2][j][2][k] + 1]>>]>>]]
\* a compiled index gives each term's postings in the order of documents, and counts documents from 1
Pairs(ps) == LET imps == {ps[j][2] : j \in DOMAIN ps}
                 at(m) == SelectSeq(ps, LAMBDA p : p[2] = m)
             IN [i \in 1..Cardinality(imps) |-> LET m == SortSeq(SetToSeq(imps), LAMBDA a, b : a > b)[i] IN <<m, [k \in DOMAIN at(m) |-> at(m)[k][1]]>>]
Run(e) == [keys |-> Tail(e.keys), terms |-> [i \in DOMAIN e.terms |-> <<e.terms[i][1], Pairs(e.terms[i][2])>>]]
Rising(e) == \A i \in DOMAIN e.terms : \A j \in 1..(Len(e.terms[i][2]) - 1) : e.terms[i][2][j][1] < e.terms[i][2][j + 1][1]
ShownDocs(groups) == FoldLeft(LAMBDA a, g : a \o g[2], <<>>, groups)
Scored(c) == LET n == Len(c.keys) more == IF c.atire THEN 1 ELSE 0 sum == TotalLength(c) + more * n IN
  [w \in Vocabulary(c) |-> LET in == Holding(c, w) IN [d \in in |-> B!ScoreIn(c.all, n, sum, Cardinality(in), c.weights[d][w], c.lens[d] + more)]]
All(scores) == UNION {{scores[w][d] : d \in DOMAIN scores[w]} : w \in DOMAIN scores}
Least(S) == CHOOSE a \in S : \A b \in S : a <= b
Most(S) == CHOOSE a \in S : \A b \in S : a >= b
DumpOk(c, e) ==
  /\ e.keys = c.keys
  /\ {e.terms[i][1] : i \in DOMAIN e.terms} = Vocabulary(c) /\ Len(e.terms) = Cardinality(Vocabulary(c))
  /\ \A i \in DOMAIN e.terms : \E g \in {e.terms[i][2]} : \E docs \in {ShownDocs(g)} :
       /\ {docs[k] : k \in DOMAIN docs} = Holding(c, e.terms[i][1]) /\ Len(docs) = Cardinality(Holding(c, e.terms[i][1]))
       /\ \A j \in 1..(Len(g) - 1) : g[j][1] > g[j + 1][1]
       /\ \A j \in DOMAIN g : g[j][1] \in 1..MaxWeight
  /\ IF Vocabulary(c) = {} THEN TRUE
     ELSE IF c.how = "scaled"
     THEN \E lo \in {Least(All(c.weights))} : \E hi \in {Most(All(c.weights))} :
          \A i \in DOMAIN e.terms : \A j \in DOMAIN e.terms[i][2] : \A k \in DOMAIN e.terms[i][2][j][2] :
            e.terms[i][2][j][1] \in B!Scaled(c.weights[e.terms[i][2][j][2][k]][e.terms[i][1]], lo, hi)
     ELSE IF c.how = "exact"
     THEN \A i \in DOMAIN e.terms : \A j \in DOMAIN e.terms[i][2] : \A k \in DOMAIN e.terms[i][2][j][2] :
            e.terms[i][2][j][1] = c.weights[e.terms[i][2][j][2][k]][e.terms[i][1]]
     ELSE \E s \in {TLCEval(Scored(c))} : \E lo \in {Least(All(s))} : \E hi \in {Most(All(s))} :
          /\ \A i \in DOMAIN e.terms : \A j \in DOMAIN e.terms[i][2] : \A k \in DOMAIN e.terms[i][2][j][2] :
               e.terms[i][2][j][1] \in B!Impacts(s[e.terms[i][1]][e.terms[i][2][j][2][k]], lo, hi)
          \* the whole range is used
          /\ hi - lo > 2000 => {1, MaxWeight} \subseteq UNION {{e.terms[i][2][j][1] : j \in DOMAIN e.terms[i][2]} : i \in DOMAIN e.terms}
Loaded(e) == [keys |-> e.keys,
              terms |-> [w \in {e.terms[i][1] : i \in DOMAIN e.terms} |->
                          LET g == e.terms[CHOOSE i \in DOMAIN e.terms : e.terms[i][1] = w][2]
                          IN {[imp |-> g[j][1], n |-> Len(g[j][2]), docs |-> {g[j][2][k] : k \in DOMAIN g[j][2]}] : j \in DOMAIN g}]]

(* ---- a file of queries ---- *)
RECURSIVE Until(_)
Until(ls) == IF ls = <<>> \/ D!TrimRight(Head(ls)) = <<>> THEN <<>> ELSE <<D!TrimRight(Head(ls))>> \o Until(Tail(ls))
LinesOf(t) == D!LinesFrom(t, 1)
Queries(t, cls) == IF t # <<>> /\ t[1] \in 48..57 THEN Until(LinesOf(t)) ELSE Until(F!Topics(t, cls, {113, 116}))
Separators == {32, 9, 58}
IdEnd(q) == LET at == {i \in DOMAIN q : q[i] \in Separators} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A o \in at : i <= o
IdOf(q) == SubSeq(q, 1, IdEnd(q) - 1)
RestFrom(q) == LET at == {i \in IdEnd(q)..Len(q) : q[i] \notin Separators} IN CHOOSE i \in at : \A o \in at : i <= o
RestOf(q) == SubSeq(q, RestFrom(q), Len(q))

(* ---- the ranking: `s` the settings given on the command line (-1: not given) ---- *)
Percent(n, p) == (n * p) \div 100
Budgets(ix, w, s) == IF s.rel # 100 THEN LET p == TotalPostings(Segments(ix, w)) * s.rel IN IF p % 100 = 0 /\ p > 0 THEN {p \div 100, p \div 100 - 1} ELSE {p \div 100}
                     ELSE IF s.pct # 100 THEN {Percent(Len(ix.keys), s.pct)} ELSE {s.rho}
Least_(ix, s) == IF s.minpct # 0 THEN Percent(Len(ix.keys), s.minpct) ELSE s.min
OracleOf(s, id) == LET at == {i \in DOMAIN s.oracle : s.oracle[i][1] = id} IN IF at = {} THEN 0 ELSE s.oracle[Most(at)][2]
AnswerOk(ix, s, q, cls, stat, lines) ==
  LET w == K!Words(IF s.ascii THEN "raw" ELSE "text", RestOf(q), cls)
  IN /\ stat.id = IdOf(q) /\ stat.query = RestOf(q)
     /\ \A i \in DOMAIN lines : lines[i].n = i /\ lines[i].d \in 0..(Len(ix.keys) - 1) /\ lines[i].k = ix.keys[lines[i].d + 1]
     /\ \E r \in {[i \in DOMAIN lines |-> [d |-> lines[i].d + 1, s |-> lines[i].s]]} : \E b \in Budgets(ix, w, s) :
          Explains(ix, w, [k |-> s.k, o |-> Min2(OracleOf(s, IdOf(q)), MaxRsv), min |-> Least_(ix, s), budget |-> b], r, stat.pp)
RankingOk(ix, e) ==
  \E qs \in {Queries(e.text, e.classes)} :
     /\ e.queries = Len(qs) /\ e.documents = Len(ix.keys) /\ Len(e.stats) = Len(qs)
     /\ \A i \in DOMAIN qs : \E at \in {{j \in DOMAIN e.stats : e.stats[j].id = IdOf(qs[i])}} :
          /\ Cardinality(at) = 1
          /\ \A j \in at : AnswerOk(ix, e, qs[i], e.classes, e.stats[j], SelectSeq(e.ranking, LAMBDA x : x.q = IdOf(qs[i])))
     /\ \A i \in DOMAIN e.ranking : \E j \in DOMAIN qs : e.ranking[i].q = IdOf(qs[j])
     \* the lines of one query stand together
     /\ \A i \in 1..(Len(e.ranking) - 1) : e.ranking[i + 1].q = e.ranking[i].q \/ e.ranking[i + 1].n = 1
============================================================================
