------------------------------- MODULE Array_MC -------------------------------
(* The append algorithm: a linked list of blocks, a shared tail, a slot taken   *)
(* with fetch-and-add, and a new block installed with compare-and-swap when     *)
(* the last is full.  Every interleaving of every atomic step.                  *)
EXTENDS Shared
CONSTANTS Threads, Per, First, Grow(_)
VARIABLES blocks, tail, pc, loc, slot, mine, did, clock, ops
vars == <<blocks, tail, pc, loc, slot, mine, did, clock, ops>>
N == Threads * Per
Block(n) == [room |-> n, used |-> 0, next |-> 0, data |-> [k \in 1..n |-> 0]]
Elem(t) == (t - 1) * Per + did[t] + 1
Init == /\ blocks = <<Block(First)>> /\ tail = 1 /\ pc = [t \in 1..Threads |-> "idle"] /\ loc = [t \in 1..Threads |-> 0]
        /\ slot = [t \in 1..Threads |-> 0] /\ mine = [t \in 1..Threads |-> 0] /\ did = [t \in 1..Threads |-> 0]
        /\ clock = 0 /\ ops = [v \in 1..N |-> <<0, 0>>]
Go(t, where) == pc' = [pc EXCEPT ![t] = where]
Begin(t) == pc[t] = "idle" /\ did[t] < Per /\ Go(t, "tail") /\ clock' = clock + 1 /\ ops' = [ops EXCEPT ![Elem(t)] = <<clock, 0>>]
            /\ UNCHANGED <<blocks, tail, loc, slot, mine, did>>
GetTail(t) == pc[t] = "tail" /\ loc' = [loc EXCEPT ![t] = tail] /\ Go(t, "take") /\ UNCHANGED <<blocks, tail, slot, mine, did, clock, ops>>
Take(t) == /\ pc[t] = "take" /\ slot' = [slot EXCEPT ![t] = blocks[loc[t]].used]
           /\ blocks' = [blocks EXCEPT ![loc[t]].used = @ + 1]
           /\ Go(t, IF blocks[loc[t]].used < blocks[loc[t]].room THEN "store" ELSE "full") /\ UNCHANGED <<tail, loc, mine, did, clock, ops>>
Store(t) == /\ pc[t] = "store" /\ blocks' = [blocks EXCEPT ![loc[t]].data[slot[t] + 1] = Elem(t)]
            /\ Go(t, "end") /\ UNCHANGED <<tail, loc, slot, mine, did, clock, ops>>
End(t) == /\ pc[t] = "end" /\ clock' = clock + 1 /\ ops' = [ops EXCEPT ![Elem(t)] = <<@[1], clock>>] /\ did' = [did EXCEPT ![t] = @ + 1]
          /\ Go(t, "idle") /\ UNCHANGED <<blocks, tail, loc, slot, mine>>
Full(t) == /\ pc[t] = "full" /\ blocks' = Append([blocks EXCEPT ![loc[t]].used = blocks[loc[t]].room], Block(Grow(blocks[loc[t]].room)))
           /\ mine' = [mine EXCEPT ![t] = Len(blocks) + 1] /\ Go(t, "swap") /\ UNCHANGED <<tail, loc, slot, did, clock, ops>>
Swap(t) == /\ pc[t] = "swap"
           /\ IF tail = loc[t] THEN tail' = mine[t] /\ Go(t, "link") ELSE tail' = tail /\ Go(t, "tail")
           /\ UNCHANGED <<blocks, loc, slot, mine, did, clock, ops>>
Link(t) == pc[t] = "link" /\ blocks' = [blocks EXCEPT ![loc[t]].next = mine[t]] /\ Go(t, "tail") /\ UNCHANGED <<tail, loc, slot, mine, did, clock, ops>>
Next == \E t \in 1..Threads : Begin(t) \/ GetTail(t) \/ Take(t) \/ Store(t) \/ End(t) \/ Full(t) \/ Swap(t) \/ Link(t)
RECURSIVE Walk(_)
Walk(b) == IF b = 0 THEN <<>> ELSE SubSeq(blocks[b].data, 1, blocks[b].used) \o Walk(blocks[b].next)
Quiet == \A t \in 1..Threads : pc[t] = "idle" /\ did[t] = Per
Kept == Quiet => ArrayOk(ops, Walk(1), Walk(1), blocks[tail].data[blocks[tail].used], <<N, N>>, N, Walk(1), 0)
\* nothing that has been appended is ever overwritten or dropped
NoLoss == \A t \in 1..Threads : \A k \in 1..did[t] : Cardinality({<<b, s>> \in {<<b, s>> \in (DOMAIN blocks) \X (1..8) : s <= blocks[b].room} : blocks[b].data[s] = (t - 1) * Per + k}) = 1
Spec == Init /\ [][Next]_vars
Same(n) == n
OneMore(n) == n + 1
=============================================================================
