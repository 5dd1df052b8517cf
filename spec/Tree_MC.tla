------------------------------- MODULE Tree_MC -------------------------------
(* Find-or-add in the shared tree: a node is prepared, its parent recorded, and *)
(* installed in an empty link with compare-and-swap; a loser walks on from the  *)
(* winner.  Every interleaving.                                                 *)
EXTENDS Shared
CONSTANTS Threads, Per, Keys
VARIABLES want, nodes, root, pc, at, side, fresh, calls, did
vars == <<want, nodes, root, pc, at, side, fresh, calls, did>>
\* a node: key, left, right, parent, hits; link 0 is empty; place <<0, "root">> is the root
Node(k) == [key |-> k, left |-> 0, right |-> 0, parent |-> -1, hits |-> 0]
Key(t) == want[t][did[t] + 1]
Init == /\ want \in [1..Threads -> [1..Per -> Keys]]
        /\ nodes = <<>> /\ root = 0 /\ pc = [t \in 1..Threads |-> "start"] /\ at = [t \in 1..Threads |-> 0]
        /\ side = [t \in 1..Threads |-> "root"] /\ fresh = [t \in 1..Threads |-> 0] /\ calls = <<>> /\ did = [t \in 1..Threads |-> 0]
Link(t) == IF side[t] = "root" THEN root ELSE IF side[t] = "left" THEN nodes[at[t]].left ELSE nodes[at[t]].right
Go(t, w) == pc' = [pc EXCEPT ![t] = w]
Start(t) == /\ pc[t] = "start" /\ did[t] < Per /\ at' = [at EXCEPT ![t] = 0] /\ side' = [side EXCEPT ![t] = "root"] /\ fresh' = [fresh EXCEPT ![t] = 0]
            /\ Go(t, "look") /\ UNCHANGED <<want, nodes, root, calls, did>>
Found(t, n) == /\ nodes' = [nodes EXCEPT ![n].hits = @ + 1] /\ calls' = Append(calls, <<<<Key(t)>>, 0, 0, n>>)
               /\ did' = [did EXCEPT ![t] = @ + 1] /\ Go(t, "start") /\ UNCHANGED <<want, root, at, side, fresh>>
Look(t) == /\ pc[t] = "look"
           /\ IF Link(t) = 0 THEN Go(t, "make") /\ UNCHANGED <<want, nodes, root, at, side, fresh, calls, did>>
              ELSE LET n == Link(t) IN
                   IF nodes[n].key = Key(t) THEN Found(t, n)
                   ELSE /\ at' = [at EXCEPT ![t] = n] /\ side' = [side EXCEPT ![t] = IF Key(t) < nodes[n].key THEN "right" ELSE "left"]
                        /\ UNCHANGED <<want, nodes, root, pc, fresh, calls, did>>
Make(t) == /\ pc[t] = "make" /\ Go(t, "swap")
           /\ IF fresh[t] = 0 THEN nodes' = Append(nodes, [Node(Key(t)) EXCEPT !.parent = at[t]]) /\ fresh' = [fresh EXCEPT ![t] = Len(nodes) + 1]
              ELSE nodes' = [nodes EXCEPT ![fresh[t]].parent = at[t]] /\ fresh' = fresh
           /\ UNCHANGED <<want, root, at, side, calls, did>>
Swap(t) == /\ pc[t] = "swap"
           /\ IF Link(t) # 0 THEN Go(t, "look") /\ UNCHANGED <<want, nodes, root, at, side, fresh, calls, did>>
              ELSE /\ IF side[t] = "root" THEN root' = fresh[t] /\ nodes' = [nodes EXCEPT ![fresh[t]].hits = @ + 1]
                      ELSE root' = root /\ nodes' = IF side[t] = "left" THEN [nodes EXCEPT ![at[t]].left = fresh[t], ![fresh[t]].hits = @ + 1]
                                                    ELSE [nodes EXCEPT ![at[t]].right = fresh[t], ![fresh[t]].hits = @ + 1]
                   /\ calls' = Append(calls, <<<<Key(t)>>, 0, 0, fresh[t]>>) /\ did' = [did EXCEPT ![t] = @ + 1] /\ fresh' = [fresh EXCEPT ![t] = 0]
                   /\ Go(t, "start") /\ UNCHANGED <<want, at, side>>
Next == \E t \in 1..Threads : Start(t) \/ Look(t) \/ Make(t) \/ Swap(t)
RECURSIVE Walk(_)
Walk(n) == IF n = 0 THEN <<>> ELSE Walk(nodes[n].left) \o <<<<<<nodes[n].key>>, nodes[n].hits, n>>>> \o Walk(nodes[n].right)
Quiet == \A t \in 1..Threads : pc[t] = "start" /\ did[t] = Per
Kept == Quiet => MapOk(calls, Walk(root), TRUE)
\* every node in the tree names the node above it as its parent, so that an iterator finds its way back
Parents == \A n \in DOMAIN nodes : \A c \in {nodes[n].left, nodes[n].right} : c # 0 => nodes[c].parent = n
RootParent == root # 0 => nodes[root].parent = 0
Spec == Init /\ [][Next]_vars
=============================================================================
