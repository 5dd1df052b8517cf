------------------------------ MODULE Ordered ------------------------------
(* What a heap, a bi-parental heap, a bounded top-k heap and a top-k sort owe  *)
(* their users: the order they keep, and that they neither lose nor invent an  *)
(* element.  Arrays are sequences counted from 1; positions the code reports   *)
(* count from 0.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Up(a) == SortSeq(a, LAMBDA x, y : x < y)
SameBag(a, b) == Len(a) = Len(b) /\ Up(a) = Up(b)
(* ---- heap: every element at most its children *)
IsHeap(a) == \A p \in 2..Len(a) : a[p \div 2] <= a[p]
(* ---- beap: row h holds positions h(h+1)/2 .. (h+1)(h+2)/2-1, and position p of row h has children p+h+1 and p+h+2 *)
RowOf[p \in 0..1100, h \in 0..50] == IF p < ((h + 1) * (h + 2)) \div 2 THEN h ELSE RowOf[p, h + 1]
Row(p) == RowOf[p, 0]
Below(n, p) == {c \in {p + Row(p) + 1, p + Row(p) + 2} : c < n}
IsBeap(a) == \A p \in 0..(Len(a) - 1) : \A c \in Below(Len(a), p) : a[p + 1] <= a[c + 1]
Found(a, key, at) == IF at = -1 THEN ~ Contains(a, key) ELSE at \in 0..(Len(a) - 1) /\ a[at + 1] = key
Swap(a, p, key) == [a EXCEPT ![p + 1] = key]
HeapOk(op, x, y, a, b, ret) ==
  CASE op = "m" -> SameBag(a, b) /\ IsHeap(b)
    [] op = "p" -> SameBag(Swap(a, 0, x), b) /\ (IsHeap(a) => IsHeap(b))
    [] op = "u" -> SameBag(Swap(a, x, y), b) /\ (IsHeap(a) /\ y >= a[x + 1] => IsHeap(b))
    [] op = "f" -> a = b /\ Found(a, x, ret)
BeapOk(op, x, y, a, b, ret) ==
  LET put(old, new) == IF Contains(a, old)
                       THEN /\ SameBag(Swap(a, (CHOOSE k \in DOMAIN a : a[k] = old) - 1, new), b)
                            /\ ret \in 0..(Len(a) - 1) /\ b[ret + 1] = new
                       ELSE a = b /\ ret = -1 IN
  CASE op = "m" -> SameBag(a, b) /\ IsBeap(b)
    [] op = "f" -> a = b /\ (IsBeap(a) => Found(a, x, ret))
    [] op = "s" -> IsBeap(a) /\ x >= a[1] => IsBeap(b) /\ SameBag(Swap(a, 0, x), b) /\ b[ret + 1] = x
    [] op = "r" -> IsBeap(a) => IsBeap(b) /\ put(x, y)
    [] op \in {"l", "g"} -> IsBeap(a) /\ y >= x => IsBeap(b) /\ put(x, y)
    [] op \in {"e", "q"} -> IsBeap(a) /\ y <= x => IsBeap(b) /\ put(x, y)
(* ---- the k largest of everything inserted, with values that may grow         *)
Minimum(a) == FoldLeft(LAMBDA m, x : IF x < m THEN x ELSE m, a[1], a)
Without(a, x) == LET k == CHOOSE j \in DOMAIN a : a[j] = x IN SubSeq(a, 1, k - 1) \o SubSeq(a, k + 1, Len(a))
Insert(bag, k, x) == IF Len(bag) < k THEN Append(bag, x) ELSE IF x > Minimum(bag) THEN Append(Without(bag, Minimum(bag)), x) ELSE bag
Decreasing(a) == \A j \in 2..Len(a) : a[j - 1] >= a[j]
\* op: <<what, argument, value before, value returned, contents afterwards>>
TopOk(k, ops, capacity, size) ==
  LET r == FoldLeft(LAMBDA s, o :
             LET now == IF o[1] = "p" THEN Insert(s.bag, k, o[2]) ELSE IF o[1] = "b" THEN Append(Without(s.bag, o[3]), o[4]) ELSE s.bag IN
             [bag |-> now, ok |-> /\ s.ok /\ SameBag(now, o[5])
                                  /\ (o[1] = "f" => o[4] = Minimum(now)) /\ (o[1] = "s" => Decreasing(o[5]))],
             [bag |-> <<>>, ok |-> TRUE], ops)
  IN r.ok /\ capacity = k /\ size = Len(r.bag)
(* ---- the first k in order, and everything still there *)
SortOk(k, a, b) == SameBag(a, b) /\ LET n == IF k < Len(a) THEN k ELSE Len(a) IN SubSeq(b, 1, n) = SubSeq(Up(a), 1, n)
=============================================================================
