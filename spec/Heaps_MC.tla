------------------------------ MODULE Heaps_MC ------------------------------
(* The heap and the beap as algorithms.  Every array of up to N elements over   *)
(* 0..V that is a heap (beap) is a state, and from each of them every           *)
(* operation must keep the order and the elements: the promises are inductive.  *)
EXTENDS Ordered, Json
CONSTANTS N, V
VARIABLES kind, a, did
vars == <<kind, a, did>>
Values == 0..V
(* ---- heap: move the hole at p down until key fits *)
RECURSIVE Sift(_, _, _)
Sift(x, key, p) ==
  LET l == 2 * p
      r == 2 * p + 1
      down(c) == Sift([x EXCEPT ![p] = x[c]], key, c) IN
  IF r <= Len(x)
  THEN IF key <= x[l] /\ key <= x[r] THEN [x EXCEPT ![p] = key] ELSE IF x[l] < x[r] THEN down(l) ELSE down(r)
  ELSE IF l <= Len(x) /\ key > x[l] THEN down(l) ELSE [x EXCEPT ![p] = key]
MakeHeap(x) == FoldLeft(LAMBDA y, k : LET p == (Len(x) \div 2) + 1 - k IN Sift(y, y[p], p), x, [k \in 1..(Len(x) \div 2) |-> k])
FindHeap(x, key) == IF Contains(x, key) THEN (CHOOSE k \in DOMAIN x : x[k] = key /\ \A j \in 1..(k-1) : x[j] # key) - 1 ELSE -1
(* ---- beap: positions count from 0, as <<array, where the key went>> *)
At(x, p) == x[p + 1]
First(h) == (h * (h + 1)) \div 2
Final(h) == ((h + 1) * (h + 2)) \div 2 - 1
RECURSIVE Down(_, _, _), Rise(_, _, _, _), Seek(_, _, _, _)
Down(x, key, p) ==
  LET h == Row(p)
      c1 == p + h + 1
      c2 == p + h + 2
      n == Len(x)
      go(c) == Down(Swap(x, p, At(x, c)), key, c) IN
  IF c1 >= n THEN <<Swap(x, p, key), p>>
  ELSE IF key > At(x, c1) THEN IF c2 < n /\ At(x, c2) <= At(x, c1) THEN go(c2) ELSE go(c1)
  ELSE IF c2 < n /\ key > At(x, c2) THEN go(c2)
  ELSE <<Swap(x, p, key), p>>
\* edge: 0 inside a row, -1 up the left edge, 1 up the right edge
Rise(x, key, p, edge) ==
  LET h == Row(p)
      p1 == p - h - 1
      p2 == p - h
      e == IF edge # 0 THEN edge ELSE IF p = First(h) THEN -1 ELSE IF p = Final(h) THEN 1 ELSE 0
      go(c) == Rise(Swap(x, p, At(x, c)), key, c, e)
      here == <<Swap(x, p, key), p>> IN
  IF h = 0 THEN here
  ELSE IF e = -1 THEN IF At(x, p2) > key THEN go(p2) ELSE here
  ELSE IF e = 1 THEN IF At(x, p1) > key THEN go(p1) ELSE here
  ELSE IF At(x, p1) > key THEN IF At(x, p1) > At(x, p2) THEN go(p1) ELSE go(p2)
  ELSE IF At(x, p2) > key THEN go(p2) ELSE here
\* the search: from the first of the last row, up and to the right when the element is too large,
\* down (or along) when it is too small
UpRight(x, key, p, h) == IF p = Final(h) THEN -1 ELSE Seek(x, key, p - h, h - 1)
Seek(x, key, p, h) ==
  LET last == Row(Len(x) - 1) IN
  IF At(x, p) > key THEN UpRight(x, key, p, h)
  ELSE IF key > At(x, p)
  THEN IF h = last \/ p + h + 2 >= Len(x)
       THEN IF p + 1 > Final(h) THEN -1 ELSE IF p + 1 >= Len(x) THEN UpRight(x, key, p + 1, h) ELSE Seek(x, key, p + 1, h)
       ELSE Seek(x, key, p + h + 2, h + 1)
  ELSE p
FindBeap(x, key) == Seek(x, key, First(Row(Len(x) - 1)), Row(Len(x) - 1))
Replace(x, old, new) == LET p == FindBeap(x, old) IN IF p < 0 THEN <<x, -1>> ELSE IF old > new THEN Rise(x, new, p, 0) ELSE Down(x, new, p)
(* ---- *)
Arrays == UNION {[1..n -> Values] : n \in 1..N}
Init == /\ kind \in {"heap", "beap"} /\ a \in {x \in Arrays : kind = "heap" \/ IsBeap(x)} /\ did = <<>>
Spec == Init /\ [][FALSE]_vars
Keys == -1..(V + 1)
Inductive ==
  IF kind = "heap"
  THEN LET h == MakeHeap(a) IN
       /\ HeapOk("m", 0, 0, a, h, 0)
       /\ IsHeap(a) => \A key \in Keys : /\ HeapOk("p", key, 0, a, Sift(a, key, 1), 0)
                                          /\ HeapOk("f", key, 0, a, a, FindHeap(a, key))
                                          /\ \A p \in DOMAIN a : key >= a[p] => HeapOk("u", p - 1, key, a, Sift(a, key, p), 0)
  ELSE \A key \in Keys :
         /\ BeapOk("f", key, 0, a, a, FindBeap(a, key))
         /\ LET r == Down(a, key, 0) IN BeapOk("s", key, 0, a, r[1], r[2])
         /\ \A new \in Keys : LET r == Replace(a, key, new) IN BeapOk("r", key, new, a, r[1], r[2])
(* ---- behaviours to replay: an array and the operations done on it *)
GenInit == /\ kind \in {"heap", "beap"} /\ \E n \in 1..N : a \in {RandomElement([1..n -> Values])} /\ did = <<<<"start", a>>>>
Op(o, x, y, b) == a' = b /\ did' = Append(did, <<o, x, y>>) /\ UNCHANGED kind
GenNext ==
  IF Len(did) = 1 THEN Op("m", 0, 0, IF kind = "heap" THEN MakeHeap(a) ELSE Up(a))
  ELSE \E key \in {RandomElement(Keys)}, new \in {RandomElement(Keys)}, p \in {RandomElement(DOMAIN a)} :
       IF kind = "heap"
       THEN \/ Op("p", key, 0, Sift(a, key, 1)) \/ Op("f", key, 0, a)
            \/ LET k == IF key >= a[p] THEN key ELSE a[p] IN Op("u", p - 1, k, Sift(a, k, p))
       ELSE \/ Op("f", key, 0, a) \/ Op("r", key, new, Replace(a, key, new)[1]) \/ Op("r", a[p], new, Replace(a, a[p], new)[1])
            \/ LET k == IF key >= a[1] THEN key ELSE a[1] IN Op("s", k, 0, Down(a, k, 0)[1])
GenSpec == GenInit /\ [][GenNext]_vars
Show == Len(did) < 14 \/ PrintT("@@" \o ToJson([kind |-> kind, did |-> did]))
=============================================================================
