------------------------------ MODULE Accum_MC ------------------------------
(* Two ways of clearing accumulators lazily, each run beside the array of       *)
(* zeroes it stands for: pages with a dirty flag, and a counter beside each     *)
(* accumulator naming the query that last cleaned it (counters wrap).           *)
EXTENDS Zeroed, Json
CONSTANTS N, Epochs, V, Shifts, Steps
VARIABLES shift, n, val, page, dirty, counter, stamp, now, true, did
vars == <<shift, n, val, page, dirty, counter, stamp, now, true, did>>
Cells == 0..(N - 1)
Pages == 0..N
Page(i) == i \div (2 ^ shift)
\* memory starts as rubbish: V everywhere, and flags and stamps that mean nothing
Init == /\ shift = 0 /\ n = 0 /\ val = [i \in Cells |-> V] /\ page = [i \in Cells |-> V] /\ dirty = [p \in Pages |-> FALSE]
        /\ counter = 0 /\ stamp = [i \in Cells |-> 0] /\ now = [i \in Cells |-> 0] /\ true = <<>> /\ did = <<>>
Ready == n > 0
Start(k, w) == /\ n' = k /\ shift' = w /\ counter' = 0 /\ true' = <<>>
               /\ stamp' = [i \in Cells |-> IF i < k THEN 0 ELSE stamp[i]] /\ val' = [i \in Cells |-> IF i < k THEN 0 ELSE val[i]]
               /\ dirty' = [p \in Pages |-> IF p * (2 ^ w) < k THEN TRUE ELSE dirty[p]]
               /\ did' = Append(did, <<"I", k, w>>) /\ UNCHANGED <<page, now>>
Add(i, x) == /\ Ready /\ i < n
             /\ stamp' = [stamp EXCEPT ![i] = counter]
             /\ val' = [val EXCEPT ![i] = (IF stamp[i] = counter THEN @ ELSE 0) + x]
             /\ LET clean == IF dirty[Page(i)] THEN [j \in Cells |-> IF Page(j) = Page(i) THEN 0 ELSE page[j]] ELSE page IN
                page' = [clean EXCEPT ![i] = @ + x]
             /\ dirty' = [dirty EXCEPT ![Page(i)] = FALSE]
             /\ true' = (i :> (Of(true, i) + x)) @@ true
             /\ did' = Append(did, <<"a", i, x>>) /\ UNCHANGED <<shift, n, counter, now>>
Rewind == /\ Ready /\ true' = <<>>
          /\ dirty' = [p \in Pages |-> IF p * (2 ^ shift) < n THEN TRUE ELSE dirty[p]]
          /\ IF counter = Epochs THEN stamp' = [i \in Cells |-> IF i < n THEN 0 ELSE stamp[i]] /\ counter' = 1
             ELSE UNCHANGED stamp /\ counter' = counter + 1
          /\ did' = Append(did, <<"r", 0, 0>>) /\ UNCHANGED <<shift, n, val, page, now>>
Next == Len(did) < Steps /\ ((\E k \in 1..N, w \in Shifts : Start(k, w)) \/ (\E i \in Cells, x \in 1..2 : Of(true, i) + x <= V /\ Add(i, x)) \/ Rewind)
Spec == Init /\ [][Next]_vars
Seen(i) == IF stamp[i] = counter THEN val[i] ELSE 0
SeenPage(i) == IF dirty[Page(i)] THEN 0 ELSE page[i]
Zeroes == \A i \in Cells : i < n => Seen(i) = Of(true, i) /\ SeenPage(i) = Of(true, i)
View == <<shift, n, val, page, dirty, counter, stamp, true, Len(did)>>
GenNext == /\ Len(did) < Steps
           /\ LET i == RandomElement(0..((IF n = 0 THEN 1 ELSE n) - 1)) IN
              IF n = 0 \/ RandomElement(1..25) = 1 THEN Start(RandomElement(1..N), RandomElement(Shifts)) ELSE IF RandomElement(1..4) = 1 THEN Rewind
              ELSE Add(i, RandomElement(1..3))
GenSpec == Init /\ [][GenNext]_vars
Show == Len(did) < Steps \/ PrintT("@@" \o ToJson([did |-> did]))
=============================================================================
