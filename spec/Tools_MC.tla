----------------------------- MODULE Tools_MC -----------------------------
(* The programs as they go: one cell of a matrix at a time into a table, then   *)
(* one document at a time out of it.  Whatever the matrices say, what comes out *)
(* is what the definitions of Tools say.                                        *)
EXTENDS Tools
CONSTANTS Docs, Queries, Prices
VARIABLES docs, run, training, phase, cell, table, column, left, out
vars == <<docs, run, training, phase, cell, table, column, left, out>>
Orders(S) == {s \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => s[a] # s[b]}
Matrix(values) == [queries : Orders(Queries), rows : {[k \in 1..Len(o) |-> <<o[k], v[k]>>] : <<o, v>> \in Orders(Docs) \X [1..Cardinality(Docs) -> [1..Cardinality(Queries) -> values]]}]
Init == /\ docs \in {[k \in 1..Len(o) |-> <<o[k], p[k]>>] : <<o, p>> \in {SetToSeq(Docs)} \X [1..Cardinality(Docs) -> Prices]}
        /\ run \in Matrix({0, 1}) /\ training \in {[queries |-> SetToSeq(Queries), rows |-> [k \in 1..Cardinality(Docs) |-> <<SetToSeq(Docs)[k], v[k]>>]] : v \in [1..Cardinality(Docs) -> [1..Cardinality(Queries) -> {-1, 0, 1}]]}
        /\ phase = "read" /\ cell = <<1, 1>> /\ table = [x \in Docs \X Queries |-> 0] /\ column = 1 /\ left = {} /\ out = <<>>
Read == /\ phase = "read"
        /\ LET v == run.rows[cell[1]][2][cell[2]] at == <<run.rows[cell[1]][1], run.queries[cell[2]]>> IN table' = IF v = 1 THEN [table EXCEPT ![at] = 1] ELSE table
        /\ IF cell[2] < Len(run.queries) THEN cell' = <<cell[1], cell[2] + 1>> /\ phase' = phase
           ELSE IF cell[1] < Len(run.rows) THEN cell' = <<cell[1] + 1, 1>> /\ phase' = phase
           ELSE cell' = cell /\ phase' = "choose"
        /\ UNCHANGED <<docs, run, training, column, left, out>>
Choose_ == /\ phase = "choose"
           /\ IF column > Len(run.queries) THEN phase' = "done" /\ UNCHANGED left
              ELSE phase' = "rank" /\ left' = {d \in Docs : table[<<d, run.queries[column]>>] = 1 /\ Value(training, run.queries[column], d) = 0}
           /\ UNCHANGED <<docs, run, training, cell, table, column, out>>
RankOne == /\ phase = "rank"
           /\ IF left = {} THEN phase' = "choose" /\ column' = column + 1 /\ UNCHANGED <<left, out>>
              ELSE LET d == CHOOSE d \in left : \A x \in left \ {d} : Cheaper(docs, d, x) q == run.queries[column]
                       r == Cardinality({k \in DOMAIN out : out[k][1] = q}) + 1
                   IN /\ out' = Append(out, <<q, d, r, Cardinality(left)>>) /\ left' = left \ {d} /\ UNCHANGED <<phase, column>>
           /\ UNCHANGED <<docs, run, training, cell, table>>
Next == Read \/ Choose_ \/ RankOne
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == phase = "done" => out = RunLines(docs, run, training, 1)
Known == \A k \in DOMAIN out : Value(training, out[k][1], out[k][2]) = 0 /\ Value(run, out[k][1], out[k][2]) = 1
Ends == <>(phase = "done")
=============================================================================
