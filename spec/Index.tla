------------------------------- MODULE Index -------------------------------
(* Building an index in memory, ordering it by impact, quantising its scores,  *)
(* writing it in either format and reading it back.  One action per public     *)
(* call; what a call shows is an argument that the action constrains.          *)
EXTENDS IndexFiles
LargestImpact == 1024
VARIABLES keys, lens, post, open, files
ivars == <<keys, lens, post, open, files>>
IndexInit == keys = <<>> /\ lens = <<>> /\ post = <<>> /\ open = FALSE /\ files = <<>>
New == keys' = <<>> /\ lens' = <<>> /\ post' = <<>> /\ open' = FALSE /\ files' = files
Less(a, b) == IF a < b THEN a ELSE b
Begin(key) == ~open /\ open' = TRUE /\ keys' = Append(keys, key) /\ UNCHANGED <<lens, post, files>>
Tok(t, c) ==
  /\ open
  /\ LET p == IF t \in DOMAIN post THEN post[t] ELSE <<>>
         d == Len(keys)
         q == IF p # <<>> /\ p[Len(p)][1] = d THEN [p EXCEPT ![Len(p)] = <<d, Less(@[2] + c, LargestImpact)>>]
              ELSE Append(p, <<d, Less(c, LargestImpact)>>)
     IN post' = (t :> q) @@ post
  /\ UNCHANGED <<keys, lens, open, files>>
End(len) == open /\ open' = FALSE /\ lens' = Append(lens, len) /\ UNCHANGED <<keys, post, files>>
Skip(n) == /\ ~open
           /\ keys' = keys \o [d \in 1..n |-> <<115>>] /\ lens' = lens \o [d \in 1..n |-> 1]
           /\ UNCHANGED <<open, post, files>>
SetKeys(ks) == keys = <<>> /\ keys' = ks /\ lens' = [i \in 1..Len(ks) |-> 10] /\ UNCHANGED <<post, open, files>>
List(t, p) ==
  /\ t \notin DOMAIN post
  /\ post' = (t :> [i \in 1..Len(p) |-> <<p[i][1], Less(p[i][2], LargestImpact)>>]) @@ post
  /\ UNCHANGED <<keys, lens, open, files>>

(* ---- what an iteration must show ---- *)
KeysShown(ks) == Len(ks) = Len(keys) + 1 /\ ks[1] = <<0, <<45>>>> /\ \A i \in 1..Len(keys) : ks[i + 1] = <<i, keys[i]>>
Once(ts) == Len(ts) = Cardinality(DOMAIN post) /\ {ts[i].t : i \in 1..Len(ts)} = DOMAIN post
TermsShown(ts) ==
  /\ Once(ts)
  /\ \A i \in 1..Len(ts) : LET p == post[ts[i].t] IN ts[i].d = [j \in 1..Len(p) |-> p[j][1]] /\ ts[i].f = [j \in 1..Len(p) |-> p[j][2]]
Iterate(e) == e.docs = Len(keys) /\ e.lens = <<0>> \o lens /\ TermsShown(e.terms) /\ KeysShown(e.keys) /\ UNCHANGED ivars

(* impact groups, increasing; documents in order within each *)
ImpactsOf(p) == {p[i][2] : i \in 1..Len(p)}
DocsWith(p, v) == LET q == SelectSeq(p, LAMBDA x : x[2] = v) IN [i \in 1..Len(q) |-> q[i][1]]
GroupsUp(p) == LET imps == SortSeq(SetToSeq(ImpactsOf(p)), <) IN [i \in 1..Len(imps) |-> <<imps[i], DocsWith(p, imps[i])>>]
GroupsDown(p) == LET u == GroupsUp(p) IN [i \in 1..Len(u) |-> u[Len(u) + 1 - i]]
Impacts(e) == TermsShown(e.terms) /\ (\A i \in 1..Len(e.terms) : e.terms[i].g = GroupsUp(post[e.terms[i].t])) /\ KeysShown(e.keys) /\ UNCHANGED ivars

RenderLine(t) == t \o <<45, 62>> \o Concat([i \in 1..Len(post[t]) |-> <<60>> \o Digits(post[t][i][1]) \o <<44>> \o Digits(post[t][i][2]) \o <<62>>])
Render(e) ==
  LET lines == Split(e.text, 10)
  IN /\ Len(lines) = Cardinality(DOMAIN post) /\ {lines[i] : i \in 1..Len(lines)} = {RenderLine(t) : t \in DOMAIN post}
     /\ UNCHANGED ivars

(* ---- quantisation: scores are mapped linearly on 1..1024 ---- *)
Score(w, p, i) == w[1] * p[i][2] + w[2] * (p[i][1] % 7) + w[3] * Len(p)
AllScores(w) == UNION {{Score(w, post[t], i) : i \in 1..Len(post[t])} : t \in DOMAIN post}
Lowest(S) == LET q == SetToSeq(S) IN FoldLeft(LAMBDA a, x : IF x < a THEN x ELSE a, q[1], q)
Highest(S) == LET q == SetToSeq(S) IN FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, q[1], q)
ImpactOf(s, lo, hi) ==      \* an exact quotient may be rounded down by one, except at the ends of the range
  LET n == (s - lo) * (LargestImpact - 1)
      q == n \div (hi - lo)
  IN IF s = lo THEN {1} ELSE IF s = hi THEN {LargestImpact} ELSE IF n % (hi - lo) = 0 THEN {q + 1, q} ELSE {q + 1}
\* (a value bound by \E over a singleton is computed once; TLC may re-evaluate a LET)
QuantizedAs(e, lo, hi) ==
  /\ Once(e.terms) /\ KeysShown(e.keys)
  /\ (lo # hi => (e.lo = lo /\ e.hi = hi))
  /\ \A i \in 1..Len(e.terms) :
       \E p \in {post[e.terms[i].t]} :
          /\ Len(e.terms[i].d) = Len(p) /\ Len(e.terms[i].f) = Len(p)
          /\ \A j \in 1..Len(p) :
               /\ e.terms[i].d[j] = p[j][1]
               /\ IF lo = hi THEN e.terms[i].f[j] \in 1..LargestImpact
                  ELSE e.terms[i].f[j] \in ImpactOf(Score(e.w, p, j), lo, hi)
Quantize(e) == (\E S \in {AllScores(e.w)} : \E lo \in {Lowest(S)} : \E hi \in {Highest(S)} : QuantizedAs(e, lo, hi)) /\ UNCHANGED ivars
QuantizeNone(e) == TermsShown(e.terms) /\ KeysShown(e.keys) /\ UNCHANGED ivars
\* a real ranking function: impacts follow its scores, the worst posting gets 1 and the best 1024;
\* and the scores follow the evidence: more occurrences, a shorter document and a rarer term never score less
Better(x, y) == x.tf >= y.tf /\ x.len <= y.len /\ x.df <= y.df
Flat(e) == FoldLeft(LAMBDA a, x : a \o [j \in 1..Len(x.d) |-> [t |-> x.t, tf |-> post[x.t][j][2], len |-> lens[x.d[j]], df |-> Len(x.d), imp |-> x.f[j]]], <<>>, e.terms)
Bm25As(e, all, byRank, near, N) ==
  /\ Once(e.terms) /\ KeysShown(e.keys)
  /\ \A i \in 1..Len(e.terms) : \E p \in {post[e.terms[i].t]} : e.terms[i].d = [j \in 1..Len(p) |-> p[j][1]]
  /\ Len(e.rank) = N
  /\ \A i \in 1..N : all[i].imp \in 1..LargestImpact
  /\ \A i \in 1..(N - 1) : byRank[i].imp <= byRank[i + 1].imp /\ (byRank[i].rank = byRank[i + 1].rank => byRank[i].imp = byRank[i + 1].imp)
  /\ (e.distinct > 1 => \A i \in 1..N : (all[i].rank = 0 => all[i].imp = 1) /\ (all[i].rank = e.distinct - 1 => all[i].imp = LargestImpact))
  \* every pair in a small index; neighbours in the order of the evidence in a large one
  /\ IF N <= 40 THEN \A i, j \in 1..N : Better(all[i], all[j]) => all[i].rank >= all[j].rank
     ELSE \A i \in 1..N : \A j \in i..(IF i + 12 > N THEN N ELSE i + 12) : Better(near[j], near[i]) => near[j].rank >= near[i].rank
Bm25(e) ==
  /\ \E flat \in {Flat(e)} : \E all \in {[i \in 1..Len(flat) |-> flat[i] @@ ("rank" :> e.rank[i])]} :
     \E byRank \in {SortSeq(all, LAMBDA x, y : x.rank < y.rank)} :
     \E near \in {SortSeq(all, LAMBDA x, y : x.df > y.df \/ (x.df = y.df /\ (x.len > y.len \/ (x.len = y.len /\ x.tf < y.tf))))} :
        Bm25As(e, all, byRank, near, Len(flat))
  /\ UNCHANGED ivars

(* ---- writing and reading ---- *)
Content == [keys |-> keys, groups |-> [t \in DOMAIN post |-> GroupsDown(post[t])]]
WriteFiles(e) ==
  /\ files' = (e.dir :> [ix |-> TLCEval(Content), version |-> e.version, codec |-> e.codec, align |-> e.align]) @@ files
  /\ IF "postings" \in DOMAIN e
     THEN \E c \in {Content} : Says(e.version, e.codec, e.align, e.vocab, e.strings, e.postings, e.doclist, c) ELSE TRUE
  /\ UNCHANGED <<keys, lens, post, open>>
CodecName(c) == CASE c = "s" -> "None" [] c = "q" -> "QMX JASS v1" [] c = "G" -> "Group Elias Gamma SIMD"
                  [] c = "g" -> "Group Elias Gamma SIMD with Variable Byte" [] c = "D" -> "Group Elias Delta SIMD"
TermRead(m, g) ==
  /\ Len(m.s) = Len(g)
  /\ \A j \in 1..Len(g) : m.s[j] = <<g[j][1], [x \in 1..Len(g[j][2]) |-> g[j][2][x] - 1]>>
  /\ m.hi = g[1][1] /\ m.lo = g[Len(g)][1]
  /\ m.df = FoldLeft(LAMBDA a, x : a + Len(x[2]), 0, g)
ReadFiles(e) ==
  /\ IF e.dir \in DOMAIN files
     THEN LET f == files[e.dir]
          IN /\ e.ok
             /\ e.docs = Len(f.ix.keys) /\ e.keys = f.ix.keys
             /\ e.codec = CodecName(f.codec) /\ e.dness = (IF f.codec = "s" THEN 0 ELSE 1)
             /\ Len(e.terms) = Cardinality(DOMAIN f.ix.groups)
             /\ {e.terms[i].t : i \in 1..Len(e.terms)} = DOMAIN f.ix.groups
             /\ \A i \in 1..Len(e.terms) : TermRead(e.terms[i], f.ix.groups[e.terms[i].t])
             /\ \A i \in 1..Len(e.probes) :
                  LET p == e.probes[i]
                  IN /\ p.yes = (p.p \in DOMAIN f.ix.groups)
                     /\ IF p.yes THEN p.m.t = p.p /\ TermRead(p.m, f.ix.groups[p.p]) ELSE TRUE
     ELSE ~e.ok
  /\ UNCHANGED ivars

(* ---- the plain dumps ---- *)
RECURSIVE IntLists(_, _)
IntLists(b, o) == IF o >= Len(b) THEN <<>>
                  ELSE LET n == U32(b, o) IN IF n < 1 \/ ~Have(b, o, 4 * (n + 1)) THEN <<<<-1>>>>
                       ELSE <<[i \in 1..n |-> U32(b, o + 4 * i) + 1]>> \o IntLists(b, o + 4 * (n + 1))
CountIn(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
Integers_(e) ==
  \E got \in {IntLists(e.bytes, 0)} :
  \E want \in {FoldLeft(LAMBDA a, t : a \o [j \in 1..Len(GroupsDown(post[t])) |-> GroupsDown(post[t])[j][2]], <<>>, SetToSeq(DOMAIN post))} :
     Len(got) = Len(want) /\ (\A x \in {want[i] : i \in 1..Len(want)} : CountIn(got, x) = CountIn(want, x)) /\ UNCHANGED ivars
DocOpen == <<60, 68, 79, 67, 62, 60, 68, 79, 67, 78, 79, 62>>       \* <DOC><DOCNO>
DocClose == <<60, 47, 68, 79, 67, 62>>                               \* </DOC>
ForwardLine(line) ==      \* <<document, set of entries, number of entries>>
  LET rest == SubSeq(line, Len(DocOpen) + 1, Len(line) - Len(DocClose))
      lt == CHOOSE i \in 1..Len(rest) : rest[i] = 60 /\ \A j \in 1..(i-1) : rest[j] # 60
      gt == CHOOSE i \in 1..Len(rest) : rest[i] = 62 /\ \A j \in 1..(i-1) : rest[j] # 62
      words == Split(SubSeq(rest, gt + 1, Len(rest)), 32)
  IN <<SubSeq(rest, 1, lt - 1), {words[i] : i \in 1..Len(words)}, Len(words)>>
Forward(e) ==
  \E lines \in {Split(e.bytes, 10)} :
  \E has \in {SelectSeq([d \in 1..Len(keys) |-> d], LAMBDA d : \E t \in DOMAIN post : \E i \in 1..Len(post[t]) : post[t][i][1] = d)} :
  LET entries(d) == UNION {{t \o <<58>> \o Digits(post[t][i][2]) : i \in {j \in 1..Len(post[t]) : post[t][j][1] = d}} : t \in DOMAIN post}
  IN /\ Len(lines) = Len(has)
     /\ \A i \in 1..Len(lines) :
          /\ SubSeq(lines[i], 1, Len(DocOpen)) = DocOpen /\ SubSeq(lines[i], Len(lines[i]) - Len(DocClose) + 1, Len(lines[i])) = DocClose
          /\ \E f \in {ForwardLine(lines[i])} : f[1] = Digits(has[i]) /\ f[2] = entries(has[i]) /\ f[3] = Cardinality(f[2])
     /\ UNCHANGED ivars
=============================================================================
