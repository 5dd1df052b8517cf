---------------------------- MODULE Eval_MC ----------------------------
(* A topic's judgements, and a run that is built up and then improved by moving relevant documents above ones that are not. *)
EXTENDS Eval, Json
CONSTANTS Docs, Grades, Costs, Length, Depths
VARIABLES j, c, run, hist
vars == <<j, c, run, hist>>
K == 2
RBPp == 800
Init == /\ j \in UNION {[s -> Grades] : s \in SUBSET Docs}
        /\ c \in [Docs -> Costs]
        /\ run = <<>> /\ hist = 0
Extend == /\ Len(run) < Length
          /\ \E d \in Docs \ Range(run) : run' = Append(run, d)
          /\ UNCHANGED <<j, c, hist>>
Swap(i) == [run EXCEPT ![i] = run[i + 1], ![i + 1] = run[i]]
Improve == /\ \E i \in 1..(Len(run) - 1) : ~Hit(j, run[i]) /\ Hit(j, run[i + 1]) /\ run' = Swap(i)
           /\ UNCHANGED <<j, c, hist>>
Next == Extend \/ Improve
Spec == Init /\ [][Next]_vars
S(r, depth) == Scores(j, c, r, depth, K, RBPp)
C(r, depth) == PriceScores(j, c, r, depth, K)
\* a measure is a share of what is possible
Bounded == \A n \in Depths :
  LET s == S(run, n) p == C(run, n) IN
  /\ \A m \in DOMAIN s \ {"RelRet", "ESL"} : s[m] \in 0..One
  \* selling power alone can exceed one: a dear relevant document above a cheap one shifts the ideal prices (see DESIGN.md)
  /\ \A m \in DOMAIN p \ {"SP"} : p[m] \in 0..(One + 5)
  /\ s.RelRet <= Len(run) * One
  /\ n # 0 => s.ESL \in 0..(n * One)
\* the relevant documents first, cheapest first: nothing can be better
Ideal == LET q == SetToSeq(Relevant(j)) IN SortSeq(q, LAMBDA a, b : Cost(c, a) < Cost(c, b) \/ (Cost(c, a) = Cost(c, b) /\ a < b))
Perfect == run = <<>> /\ Relevant(j) # {} => \A n \in Depths : LET s == S(Ideal, n) p == C(Ideal, n) IN
  /\ s.R = One /\ s.MRR = One /\ s.ESL = 0 /\ (n \in 0..Cardinality(Relevant(j)) => s.P = One /\ s.F1 = One)
  /\ (n = 0 \/ n >= Cardinality(Relevant(j)) => s.MAP = One)
  /\ p.SP = One /\ p.BP = One /\ p.PBnDCG = One /\ p.BPnDCG = One
  /\ (n \in 0..Cardinality(Relevant(j)) => p.PC = One) /\ (n # 1 /\ Cardinality(Relevant(j)) >= K => p.BP4K = One)
\* a relevant document that moves up never makes a score worse
Rewarded == [][Len(run') = Len(run) => \A n \in Depths :
                 LET s == S(run, n) p == C(run, n) s2 == S(run', n) p2 == C(run', n) IN
                 /\ \A m \in DOMAIN s \ {"ESL"} : s2[m] >= s[m]
                 /\ s2.ESL <= s.ESL
                 /\ \A m \in DOMAIN p \ {"PC"} : p2[m] >= p[m]]_vars
\* behaviours for the conformance check: topics and runs at random
GenInit == j = <<>> /\ c = [d \in Docs |-> 1] /\ run = <<>> /\ hist = 0
GenNext ==
  /\ hist < 16 /\ hist' = hist + 1
  /\ \E w \in {RandomElement({1, 1, 1, 2, 2, 2, 3, 3})} : \E d \in {RandomElement(Docs)} :
       IF w = 1 THEN \E g \in {RandomElement({0, 0, 1, 1, 1, 2, 3})} : j' = [e \in DOMAIN j \cup {d} |-> IF e = d THEN g ELSE j[e]] /\ UNCHANGED <<c, run>>
       ELSE IF w = 2 THEN run' = (IF d \in Range(run) THEN run ELSE Append(run, d)) /\ UNCHANGED <<j, c>>
       ELSE \E x \in {RandomElement({1, 1, 2, 5, 5, 20, 100, 200})} : c' = [c EXCEPT ![d] = x] /\ UNCHANGED <<j, run>>
GenSpec == GenInit /\ [][GenNext]_vars
Show == hist \notin {3, 8, 12, 16} \/ PrintT("@@" \o ToJson([judged |-> [i \in 1..Cardinality(DOMAIN j) |-> LET d == SetToSeq(DOMAIN j)[i] IN <<d, j[d]>>],
                                                            costs |-> [d \in 1..Cardinality(Docs) |-> c[d]], run |-> run]))
=============================================================================
