-------------------------- MODULE SearchContract --------------------------
(* What one query must return, as a relation between an impact-ordered index, *)
(* a query, the engine's settings and the observed answer.  Pure operators;   *)
(* SearchAlg.tla is checked against them and EngineTrace.tla judges recorded  *)
(* answers of the real engine with them.                                      *)
(*                                                                            *)
(* An index is [keys: Seq(STRING), terms: [term -> set of segments]], and a   *)
(* segment is [imp, n, docs] - every document of one term with one impact     *)
(* (documents counted from 1, n = |docs|).                                    *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

MaxRsv == 255        \* the range of one accumulator

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

SumOver(f(_), S) == FoldLeft(LAMBDA a, x : a + f(x), 0, SetToSeq(S))

(* ---- the query as a bag of words ---- *)
Words(w) == {w[i] : i \in 1..Len(w)}
Qtf(w, t) == Cardinality({i \in 1..Len(w) : w[i] = t})

(* every segment the query touches, with the query term frequency applied *)
Segments(ix, w) ==
  UNION {{[t |-> t, imp |-> s.imp * Qtf(w, t), n |-> s.n, docs |-> s.docs] : s \in ix.terms[t]}
         : t \in Words(w) \cap DOMAIN ix.terms}

TermMax(segs, t) == LET im == {s.imp : s \in {x \in segs : x.t = t}} IN CHOOSE m \in im : \A y \in im : y <= m
LargestRsv(segs) == SumOver(LAMBDA t : TermMax(segs, t), {s.t : s \in segs})
TotalPostings(segs) == SumOver(LAMBDA s : s.n, segs)

(* ---- scaling: when the best possible score does not fit, impacts shrink linearly into the range ---- *)
(* floating point may round an exact quotient down by one, so both integers are allowed there             *)
Scaled(i, L, n) == IF L <= MaxRsv THEN i ELSE (i * (MaxRsv - n)) \div L + 1
Ambiguous(imps, L, n) == IF L <= MaxRsv THEN {} ELSE {i \in imps : (i * (MaxRsv - n)) % L = 0 /\ i * (MaxRsv - n) > 0}
ScaleFunctions(imps, L, n) ==      \* the set of functions impact -> scaled impact that are acceptable
  {[i \in imps |-> Scaled(i, L, n) - (IF i \in S THEN 1 ELSE 0)] : S \in SUBSET Ambiguous(imps, L, n)}
\* too many borderline impacts to consider every combination: such an answer is not judged
Unjudged(segs, w) == Cardinality(Ambiguous({s.imp : s \in segs}, LargestRsv(segs), Cardinality(Words(w)))) > 7
Scales(segs, w) ==
  LET L == LargestRsv(segs) IN ScaleFunctions({s.imp : s \in segs}, L, Cardinality(Words(w)))

(* ---- the order segments are processed in: impact, then shorter first; further ties are unspecified ---- *)
Before(a, b) == a.imp > b.imp \/ (a.imp = b.imp /\ a.n < b.n)
SameClass(a, b) == a.imp = b.imp /\ a.n = b.n
First(S, lt(_, _)) == LET q == SetToSeq(S) IN FoldLeft(LAMBDA m, x : IF lt(x, m) THEN x ELSE m, q[1], q)
Ordered(S) == SortSeq(SetToSeq(S), Before)
Next1(segs, P) == LET R == segs \ P IN IF R = {} THEN {} ELSE LET m == First(R, Before) IN {r \in R : SameClass(r, m)}     \* what may come next
Last1(P) == IF P = {} THEN {} ELSE LET m == First(P, LAMBDA a, b : Before(b, a)) IN {r \in P : SameClass(r, m)}            \* what may have come last

\* every set of segments that adds up to pp postings and that some admissible order processes first
PrefixesOf(segs, pp) ==
  LET q == Ordered(segs)
      cum == FoldLeft(LAMBDA a, x : Append(a, a[Len(a)] + x.n), <<0>>, q)
      at == {i \in 1..Len(q) : cum[i] <= pp /\ pp <= cum[i + 1]}
  IN (IF pp = 0 THEN {{}} ELSE {}) \cup
     UNION {LET full == {r \in segs : Before(r, q[i])}
                class == {r \in segs : SameClass(r, q[i])}
                left == pp - TotalPostings(full)
            IN IF left >= 0 /\ left % q[i].n = 0 THEN {full \cup S : S \in kSubset(left \div q[i].n, class)} ELSE {}
            : i \in at}

(* ---- scores after processing the segments P ---- *)
DocsOf(P) == UNION {s.docs : s \in P}
Scores(P, sc) == TLCEval([d \in DocsOf(P) |-> SumOver(LAMBDA s : sc[s.imp], {s \in P : d \in s.docs})])
Reached(score, o) == Cardinality({d \in DOMAIN score : score[d] >= o})

(* a settings record: k, o (oracle score, <= 1 means none), min (postings), budget (-1: unlimited) *)
OracleStop(P, sc, st) == st.o > 1 /\ P # {} /\ Reached(Scores(P, sc), st.o) >= st.k /\ TotalPostings(P) >= st.min
FitsBudget(n, st) == st.budget < 0 \/ n <= st.budget

(* P is where the engine may stop: it never overran the budget, it never stopped early without cause, *)
(* and it never carried on past the point at which the oracle lets it stop                             *)
StopsAt(segs, P, sc, st) ==
  /\ FitsBudget(TotalPostings(P), st)
  /\ \/ P = segs
     \/ OracleStop(P, sc, st)
     \/ \A r \in Next1(segs, P) : ~FitsBudget(TotalPostings(P) + r.n, st)
  /\ IF P = {} THEN TRUE ELSE \E s \in Last1(P) : ~OracleStop(P \ {s}, sc, st)

(* ---- the answer: a sequence of [d, s] (documents from 1) ---- *)
Better(s1, d1, s2, d2) == s1 > s2 \/ (s1 = s2 /\ d1 > d2)      \* ties go to the higher document number
Ranked(r) == \A i \in 1..(Len(r) - 1) : Better(r[i].s, r[i].d, r[i+1].s, r[i+1].d)

ExactTop(r, score, k) ==
  LET docs == DOMAIN score
      returned == {r[i].d : i \in 1..Len(r)}
  IN /\ Len(r) = Min2(k, Cardinality(docs))
     /\ Cardinality(returned) = Len(r)
     /\ \A i \in 1..Len(r) : r[i].d \in docs /\ r[i].s = score[r[i].d]
     /\ Ranked(r)
     /\ IF Len(r) = 0 THEN TRUE ELSE \A d \in docs \ returned : Better(r[Len(r)].s, r[Len(r)].d, score[d], d)

(* The oracle's early exit.  The k-th document to reach the oracle score arrives while segment f is being    *)
(* read (P0 having been read before it); what is left of f is abandoned.  From then on the answer is the     *)
(* exact top k of what has been accumulated, so each of the k documents provably reaches the oracle score.   *)
FillDoc(P0, f, sc, st) ==
  LET s0 == Scores(P0, sc)
      at(d) == IF d \in DOMAIN s0 THEN s0[d] ELSE 0
      crossing == {d \in f.docs : at(d) < st.o /\ at(d) + sc[f.imp] >= st.o}
      need == st.k - Reached(s0, st.o)
  IN CHOOSE d \in crossing : Cardinality({e \in crossing : e <= d}) = need
FillPoints(P, sc, st) ==
  LET q == Ordered(P)
      after == FoldLeft(LAMBDA a, x : IF a.at > 0 THEN a
                          ELSE LET t == TLCEval([d \in DOMAIN a.score |-> IF d \in x.docs THEN a.score[d] + sc[x.imp] ELSE a.score[d]])
                               IN [i |-> a.i + 1, score |-> t, at |-> IF Reached(t, st.o) >= st.k THEN a.i ELSE 0],
                        [i |-> 1, score |-> [d \in DocsOf(P) |-> 0], at |-> 0], q)
      c == q[after.at]
      full == {r \in P : Before(r, c)}
      class == {r \in P : SameClass(r, c)}
  IN IF after.at = 0 THEN {}
     ELSE {p \in {<<full \cup S, f>> : S \in SUBSET class, f \in class} :
             /\ p[2] \notin p[1]
             /\ Reached(Scores(p[1], sc), st.o) < st.k /\ Reached(Scores(p[1] \cup {p[2]}, sc), st.o) >= st.k}
OracleTop(r, P, sc, score, st) ==
  \E p \in FillPoints(P, sc, st) :
     LET f == p[2]
         last == FillDoc(p[1], f, sc, st)
         A == TLCEval([d \in DOMAIN score |-> IF d \in f.docs /\ d > last THEN score[d] - sc[f.imp] ELSE score[d]])
     IN /\ Len(r) = st.k
        /\ \A i \in 1..Len(r) : r[i].s >= st.o
        /\ ExactTop(r, A, st.k)

Answer(r, P, sc, st) ==
  LET score == Scores(P, sc)
  IN IF st.o > 1 /\ st.k > 0 /\ Reached(score, st.o) >= st.k
     THEN OracleTop(r, P, sc, score, st)
     ELSE ExactTop(r, score, st.k)

(* the whole contract: some admissible processing order explains the answer and the postings count *)
Explains(ix, w, st, r, pp) ==
  LET segs == Segments(ix, w)
  IN IF Unjudged(segs, w) THEN TRUE ELSE
     \E P \in PrefixesOf(segs, pp) :
       \E sc \in Scales(segs, w) :
         /\ StopsAt(segs, P, sc, st)
         /\ Answer(r, P, sc, st)
=============================================================================
