------------------------------- MODULE Claim -------------------------------
(* How parallel workers share one list of queries.  Fine-grained: each worker *)
(* reads a query's flag, tries to set it (compare and swap), and moves on.    *)
(* Properties: a query is claimed by at most one worker, and when every       *)
(* worker has found the list exhausted every query has been claimed.          *)
EXTENDS Naturals, FiniteSets
CONSTANTS Workers, Queries        \* Queries = 1..N
VARIABLES taken, at, pc, owner
vars == <<taken, at, pc, owner>>
N == Cardinality(Queries)
Init == /\ taken = [q \in Queries |-> FALSE] /\ at = [w \in Workers |-> 1]
        /\ pc = [w \in Workers |-> "look"] /\ owner = [q \in Queries |-> {}]
Look(w) == /\ pc[w] = "look" /\ at[w] <= N
           /\ IF taken[at[w]] THEN at' = [at EXCEPT ![w] = @ + 1] /\ pc' = pc
              ELSE pc' = [pc EXCEPT ![w] = "swap"] /\ at' = at
           /\ UNCHANGED <<taken, owner>>
Swap(w) == /\ pc[w] = "swap"
           /\ IF taken[at[w]] THEN pc' = [pc EXCEPT ![w] = "look"] /\ UNCHANGED <<taken, owner>>
              ELSE /\ taken' = [taken EXCEPT ![at[w]] = TRUE]
                   /\ owner' = [owner EXCEPT ![at[w]] = @ \cup {w}]
                   /\ pc' = [pc EXCEPT ![w] = "work"]
           /\ at' = at
Work(w) == pc[w] = "work" /\ pc' = [pc EXCEPT ![w] = "look"] /\ UNCHANGED <<taken, at, owner>>
Leave(w) == pc[w] = "look" /\ at[w] > N /\ pc' = [pc EXCEPT ![w] = "gone"] /\ UNCHANGED <<taken, at, owner>>
Next == \E w \in Workers : Look(w) \/ Swap(w) \/ Work(w) \/ Leave(w)
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Look(w) \/ Swap(w) \/ Work(w) \/ Leave(w))
AtMostOnce == \A q \in Queries : Cardinality(owner[q]) <= 1
AllGone == \A w \in Workers : pc[w] = "gone"
ExactlyOnce == AllGone => \A q \in Queries : Cardinality(owner[q]) = 1
LeaveOnlyWhenAllTaken == \A w \in Workers : pc[w] = "gone" => \A q \in Queries : taken[q]
Terminates == <>AllGone
=============================================================================
