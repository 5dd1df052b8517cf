------------------------------- MODULE Pool_MC -------------------------------
(* The pool: chunks on a shared stack, a bump pointer per chunk moved with      *)
(* compare-and-swap, a new chunk pushed when the top one cannot hold the        *)
(* request.  Chunk addresses are chosen adversarially (any residue).            *)
EXTENDS Shared
CONSTANTS Threads, Per, BlockSize, Sizes, Aligns
VARIABLES chunks, top, pc, ask, seenTop, seenAt, did, got, size, cap
vars == <<chunks, top, pc, ask, seenTop, seenAt, did, got, size, cap>>
Room(c) == c.end - c.at
\* chunk k occupies addresses k * 1000 + r .. ; at, end are addresses
Init == /\ chunks = <<>> /\ top = 0 /\ pc = [t \in 1..Threads |-> "idle"] /\ ask = [t \in 1..Threads |-> <<1, 1>>] /\ seenTop = [t \in 1..Threads |-> 0]
        /\ seenAt = [t \in 1..Threads |-> 0] /\ did = [t \in 1..Threads |-> 0] /\ got = <<>> /\ size = 0 /\ cap = 0
Go(t, w) == pc' = [pc EXCEPT ![t] = w]
Ask(t) == /\ pc[t] = "idle" /\ did[t] < Per /\ \E s \in Sizes, a \in Aligns : ask' = [ask EXCEPT ![t] = <<s, a>>]
          /\ Go(t, "top") /\ UNCHANGED <<chunks, top, seenTop, seenAt, did, got, size, cap>>
Top(t) == pc[t] = "top" /\ seenTop' = [seenTop EXCEPT ![t] = top] /\ Go(t, IF top = 0 THEN "grow" ELSE "at") /\ UNCHANGED <<chunks, top, ask, seenAt, did, got, size, cap>>
Pad(a, n) == (n - (a % n)) % n
At(t) == /\ pc[t] = "at"
         /\ LET c == chunks[seenTop[t]] IN
            /\ seenAt' = [seenAt EXCEPT ![t] = c.at]
            /\ Go(t, IF c.at + Pad(c.at, ask[t][2]) + ask[t][1] > c.end THEN "grow" ELSE "bump")
         /\ UNCHANGED <<chunks, top, ask, seenTop, did, got, size, cap>>
Bump(t) == /\ pc[t] = "bump"
           /\ LET c == chunks[seenTop[t]] IN
              IF c.at = seenAt[t]
              THEN LET from == c.at + Pad(c.at, ask[t][2]) IN
                   /\ chunks' = [chunks EXCEPT ![seenTop[t]].at = from + ask[t][1]] /\ got' = Append(got, <<0, from, ask[t][1], ask[t][2], 1>>)
                   /\ size' = size + ask[t][1] /\ did' = [did EXCEPT ![t] = @ + 1] /\ Go(t, "idle") /\ UNCHANGED <<top, ask, seenTop, seenAt, cap>>
              ELSE Go(t, "top") /\ UNCHANGED <<chunks, top, ask, seenTop, seenAt, did, got, size, cap>>
\* a new chunk is prepared, naming the chunk on top at that moment, and pushed if that is still on top
Grow(t) == /\ pc[t] = "grow" /\ seenTop' = [seenTop EXCEPT ![t] = top] /\ Go(t, "push") /\ UNCHANGED <<chunks, top, ask, seenAt, did, got, size, cap>>
Push(t) == /\ pc[t] = "push" /\ Go(t, "top")
           /\ IF top = seenTop[t]
              THEN LET need == Most(BlockSize, ask[t][1] + ask[t][2] - 1) IN
                   \E r \in {0, 3} :
                     /\ chunks' = Append(chunks, [at |-> 1000 * Len(chunks) + r, end |-> 1000 * Len(chunks) + r + need]) /\ top' = Len(chunks) + 1 /\ cap' = cap + need
              ELSE UNCHANGED <<chunks, top, cap>>
           /\ UNCHANGED <<ask, seenTop, seenAt, did, got, size>>
Next == \E t \in 1..Threads : Ask(t) \/ Top(t) \/ At(t) \/ Bump(t) \/ Grow(t) \/ Push(t)
ByAddress == SortSeq(got, LAMBDA a, b : a[2] < b[2])
Sound == PoolOk(ByAddress, size, cap)
\* one request never needs more than one new chunk of its own, whatever the address the chunk has
Bounded == Len(chunks) <= Threads * Per
\* (with several threads, one may keep taking the chunk another has made room for itself with: exploration is cut there)
Cut == Len(chunks) <= Threads * Per
Spec == Init /\ [][Next]_vars
=============================================================================
