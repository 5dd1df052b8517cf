------------------------------- MODULE TopK_MC -------------------------------
(* The bounded heap: what it believes about its own order (a heap? is the      *)
(* front the smallest?) must be true whatever the order of insertions, looks,  *)
(* sorts and values growing in place.                                          *)
EXTENDS Ordered, Json
CONSTANTS K, V, Steps
VARIABLES m, pushes, heapOrdered, frontCorrect, bag, did
vars == <<m, pushes, heapOrdered, frontCorrect, bag, did>>
Init == m = <<>> /\ pushes = 0 /\ heapOrdered = FALSE /\ frontCorrect = FALSE /\ bag = <<>> /\ did = <<>>
Flags(h, f) == heapOrdered' = h /\ frontCorrect' = f
Did(o, x, r) == did' = Append(did, <<o, x, 0, r, m'>>)
Push(v) == /\ pushes' = pushes + 1 /\ bag' = Insert(bag, K, v)
           /\ IF pushes + 1 < K THEN m' = Append(m, v) /\ Flags(FALSE, FALSE)
              ELSE IF pushes + 1 = K THEN m' = Up(Append(m, v)) /\ Flags(TRUE, TRUE)
              ELSE LET f == IF frontCorrect THEN m ELSE Up(m) IN
                   IF v > f[1] THEN m' = Up(Append(Tail(Up(f)), v)) /\ Flags(TRUE, TRUE)
                   ELSE m' = f /\ Flags(IF frontCorrect THEN heapOrdered ELSE TRUE, TRUE)
           /\ Did("p", v, 0)
Look == /\ m # <<>> /\ m' = (IF frontCorrect THEN m ELSE Up(m)) /\ Flags(IF frontCorrect THEN heapOrdered ELSE TRUE, TRUE)
         /\ UNCHANGED <<pushes, bag>> /\ Did("f", 0, m'[1])
\* sorting a heap in place only sorts it if it is one
Sort == /\ (heapOrdered => IsHeap(m)) /\ m' = Reverse(Up(m)) /\ Flags(FALSE, FALSE) /\ UNCHANGED <<pushes, bag>> /\ Did("s", 0, 0)
Promote(p, d) == /\ LET was == m[p]
                        now == was + d
                        x == [m EXCEPT ![p] = now] IN
                    /\ bag' = Append(Without(bag, was), now)
                    /\ IF p = 1 THEN m' = Up(x) /\ Flags(TRUE, TRUE) ELSE m' = x /\ Flags(FALSE, frontCorrect)
                    /\ UNCHANGED pushes
                    /\ did' = Append(did, <<"b", p, was, now, m'>>)
Next == Len(did) < Steps /\ ((\E v \in 0..V : Push(v)) \/ Look \/ Sort \/ (\E p \in DOMAIN m, d \in 1..2 : m[p] + d <= V + 1 /\ Promote(p, d)))
Spec == Init /\ [][Next]_vars
Honest == (heapOrdered => IsHeap(m)) /\ (frontCorrect => m # <<>> /\ m[1] = Minimum(m)) /\ SameBag(m, bag) /\ TopOk(K, did, K, Len(m))
View == <<m, pushes > K, IF pushes > K THEN 0 ELSE pushes, heapOrdered, frontCorrect, bag, IF did = <<>> THEN <<>> ELSE did[Len(did)], Len(did)>>
Show == Len(did) < Steps \/ PrintT("@@" \o ToJson([k |-> K, did |-> [j \in DOMAIN did |-> SubSeq(did[j], 1, 4)]]))
=============================================================================
