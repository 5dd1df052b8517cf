----------------------------- MODULE SearchAlg -----------------------------
(* The anytime score-at-a-time algorithm, one posting per step: accumulators, *)
(* the bounded heap of candidates, the oracle's early exit ("Done"), and the  *)
(* top-up of a heap that never filled.  Every terminal state must satisfy     *)
(* SearchContract!Explains, for every index, query and setting in the         *)
(* configuration, and for every order the ties may be processed in.           *)
EXTENDS SearchContract

CONSTANTS Docs, Terms, Impacts, KSet, OSet, BudgetSet, MinSet, QuerySet, Cap, RaiseAfterFill

\* Cap bounds accumulator values in the model; RaiseAfterFill: does the entry bar rise to the weakest
\* candidate when the heap fills under an oracle?  (FALSE is the behaviour before the "fix:" commit.)

VARIABLES ix, w, st, todo, cur, rest, acc, heap, full, lb, pp, pc, done
vars == <<ix, w, st, todo, cur, rest, acc, heap, full, lb, pp, pc, done>>

SegsOf(f) == {[imp |-> i, n |-> Cardinality({d \in Docs : f[d] = i}), docs |-> {d \in Docs : f[d] = i}]
               : i \in {f[d] : d \in Docs} \ {0}}
TermMaps == [Docs -> {0} \cup Impacts]

Init ==
  /\ \E m \in [Terms -> TermMaps] :
       ix = [keys |-> <<>>, terms |-> [t \in {t \in Terms : \E d \in Docs : m[t][d] # 0} |-> SegsOf(m[t])]]
  /\ w \in QuerySet
  /\ st \in [k : KSet, o : OSet, budget : BudgetSet, min : MinSet]
  /\ todo = Segments(ix, w)
  /\ cur = {} /\ rest = <<>> /\ acc = [d \in Docs |-> 0] /\ heap = {} /\ full = FALSE
  /\ lb = (IF st.o <= 1 THEN 1 ELSE Min2(st.o, Cap))
  /\ pp = 0 /\ pc = "segment" /\ done = <<>>

sc == [i \in {s.imp : s \in Segments(ix, w)} |-> i]      \* the model keeps scores inside the range

Weakest(h) == CHOOSE d \in h : \A e \in h \ {d} : Better(acc'[e], e, acc'[d], d)

SortedDocs(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => q[i] < q[j]

TakeSegment ==
  /\ pc = "segment" /\ todo # {}
  /\ \E s \in Next1(Segments(ix, w), Segments(ix, w) \ todo) :
       IF ~FitsBudget(pp + s.n, st)
       THEN /\ pc' = "finish" /\ UNCHANGED <<todo, cur, rest, pp>>
       ELSE /\ todo' = todo \ {s} /\ cur' = {s} /\ rest' = SortedDocs(s.docs) /\ pp' = pp + s.n /\ pc' = "posting"
  /\ UNCHANGED <<ix, w, st, acc, heap, full, lb, done>>

NoMoreSegments == /\ pc = "segment" /\ todo = {} /\ pc' = "finish"
                  /\ UNCHANGED <<ix, w, st, todo, cur, rest, acc, heap, full, lb, pp, done>>

Posting ==
  /\ pc = "posting" /\ rest # <<>>
  /\ LET d == Head(rest)
         s == CHOOSE s \in cur : TRUE
         old == acc[d]
         new == old + sc[s.imp]
     IN /\ acc' = [acc EXCEPT ![d] = new]
        /\ IF new < lb THEN rest' = Tail(rest) /\ UNCHANGED <<heap, full, lb>>
           ELSE IF ~full
           THEN IF old < lb
                THEN /\ heap' = heap \cup {d}
                     /\ IF Cardinality(heap') = st.k
                        THEN /\ full' = TRUE
                             /\ IF lb # 1
                                THEN /\ rest' = <<>>            \* Done: the rest of this segment is abandoned
                                     /\ lb' = (IF RaiseAfterFill THEN acc'[Weakest(heap')] ELSE lb)
                                ELSE /\ rest' = Tail(rest) /\ lb' = acc'[Weakest(heap')]
                        ELSE rest' = Tail(rest) /\ UNCHANGED <<full, lb>>
                ELSE rest' = Tail(rest) /\ UNCHANGED <<heap, full, lb>>
           ELSE /\ rest' = Tail(rest) /\ full' = full
                /\ IF d \in heap THEN heap' = heap
                   ELSE LET weak == CHOOSE x \in heap : \A e \in heap \ {x} : Better(acc[e], e, acc[x], x)
                        IN IF new = lb /\ d < weak THEN heap' = heap
                           ELSE heap' = (heap \ {weak}) \cup {d}
                /\ lb' = (IF new = lb /\ heap' = heap /\ d \notin heap THEN lb ELSE acc'[Weakest(heap')])
  /\ UNCHANGED <<ix, w, st, todo, cur, pp, pc, done>>

EndSegment ==
  /\ pc = "posting" /\ rest = <<>>
  /\ pc' = (IF st.o > 1 /\ Cardinality(heap) >= st.k /\ pp >= st.min THEN "finish" ELSE "segment")
  /\ UNCHANGED <<ix, w, st, todo, cur, rest, acc, heap, full, lb, pp, done>>

\* top up and sort: a heap that never filled under an oracle is completed from the accumulators
Finish ==
  /\ pc = "finish"
  /\ LET cand == IF st.o > 1 /\ Cardinality(heap) < st.k THEN {d \in Docs : acc[d] > 0} ELSE heap
         m == Min2(st.k, Cardinality(cand))
         top == CHOOSE S \in SUBSET cand : Cardinality(S) = m /\ \A x \in S, y \in cand \ S : Better(acc[x], x, acc[y], y)
     IN done' = CHOOSE q \in [1..m -> {[d |-> x, s |-> acc[x]] : x \in top}] :
                   \A i, j \in 1..m : i < j => Better(q[i].s, q[i].d, q[j].s, q[j].d)
  /\ pc' = "done"
  /\ UNCHANGED <<ix, w, st, todo, cur, rest, acc, heap, full, lb, pp>>

Next == TakeSegment \/ NoMoreSegments \/ Posting \/ EndSegment \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- properties ---- *)
Contract == pc = "done" => Explains(ix, w, st, done, pp)
HeapBounded == Cardinality(heap) <= st.k
BudgetKept == st.budget >= 0 => pp <= st.budget
\* with no early exit the heap always holds the best documents so far
HeapIsTop ==
  (full /\ lb # 1 /\ st.o <= 1) =>
     \A d \in Docs \ heap : \A e \in heap : Better(acc[e], e, acc[d], d)
EveryCandidateReachesBar == (st.o > 1 /\ pc # "done") => \A d \in heap : acc[d] >= Min2(st.o, Cap)
Terminates == <>(pc = "done")
=============================================================================
