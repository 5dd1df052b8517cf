------------------------------- MODULE Shared -------------------------------
(* What the structures shared by threads owe their users, judged from what the *)
(* users can see: when each call began and ended, what it returned, and what   *)
(* is there once everybody is done.                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
(* ---- append-only array: element v (1..n) was appended by a call that ran     *)
(* from ops[v][1] to ops[v][2]                                                  *)
Permutation(s, n) == Len(s) = n /\ Range(s) = 1..n
\* an element whose call ended before another's began comes before it
InOrder(seen, ops) == FoldLeft(LAMBDA a, v : [ok |-> a.ok /\ a.latest < ops[v][2], latest |-> Most(a.latest, ops[v][1])], [ok |-> TRUE, latest |-> -1], seen).ok
ArrayOk(ops, seen, index, back, total, size, part, beyond) ==
  LET n == Len(ops) IN
  /\ Permutation(seen, n) /\ InOrder(seen, ops)
  /\ index = seen /\ total = <<n, n>>
  /\ (n > 0 => back = seen[n])
  /\ part = SubSeq(seen, 1, Least(size, n)) /\ beyond = 0
(* ---- map: calls <<key, begin, end, cell>>, final <<key, hits, cell>> *)
KeyLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                 ELSE \E k \in DOMAIN a : a[k] < b[k] /\ (\A j \in 1..(k-1) : a[j] = b[j])
MapOk(calls, final, ordered) ==
  /\ \A k \in DOMAIN calls : Cardinality({j \in DOMAIN final : final[j][1] = calls[k][1]}) = 1
  /\ \A j \in DOMAIN final :
       LET mine == {k \in DOMAIN calls : calls[k][1] = final[j][1]} IN
       /\ mine # {} /\ final[j][2] = Cardinality(mine)
       /\ \A k \in mine : calls[k][4] = final[j][3]
       /\ \A i \in 1..(j-1) : final[i][3] # final[j][3] /\ (ordered => KeyLess(final[j][1], final[i][1]))
(* ---- memory: blocks in address order <<hi, lo, bytes, align, intact>>, the    *)
(* address being hi * 2^20 + lo                                                  *)
\* distance from a to b in bytes (far apart counts as far)
Far == 2000000000
Apart(a, b) == IF b[1] - a[1] > 1900 THEN Far ELSE (b[1] - a[1]) * 1048576 + (b[2] - a[2])
Disjoint(blocks) == \A k \in 1..(Len(blocks) - 1) : Apart(blocks[k], blocks[k+1]) >= blocks[k][3]
Total(blocks) == FoldLeft(LAMBDA a, x : a + x[3], 0, blocks)
Aligned(blocks) == \A k \in DOMAIN blocks : (((blocks[k][1] % blocks[k][4]) * (1048576 % blocks[k][4]) + blocks[k][2]) % blocks[k][4]) = 0
Intact(blocks) == \A k \in DOMAIN blocks : blocks[k][5] = 1
PoolOk(blocks, size, capacity) == Disjoint(blocks) /\ Aligned(blocks) /\ Intact(blocks) /\ size = Total(blocks) /\ capacity >= size
MemoryOk(blocks, size, capacity, base, length) ==
  /\ Disjoint(blocks) /\ Aligned(blocks) /\ Intact(blocks) /\ capacity = length /\ size <= length
  /\ size >= Total(blocks) /\ size <= Total(blocks) + FoldLeft(LAMBDA a, x : a + x[4] - 1, 0, blocks)
  /\ \A k \in DOMAIN blocks : Apart(base, blocks[k]) >= 0 /\ Apart(base, blocks[k]) + blocks[k][3] <= length
\* asked beyond what was used: <<bytes, align, granted>> - granted just if it fits behind the padding it needs
AskedOk(asked, size, base, length) == \A k \in DOMAIN asked :
  LET a == asked[k] at == (base[2] + size) % a[2] pad == (a[2] - at) % a[2] IN a[1] > 0 => (a[3] = 1 <=> size + pad + a[1] <= length)
=============================================================================
