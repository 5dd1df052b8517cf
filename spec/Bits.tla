-------------------------------- MODULE Bits --------------------------------
(* A bit string is a length and the set of positions that are one; a bit       *)
(* stream is the sequence of bits pushed into it.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Blank == [n |-> 0, on |-> {}]
\* the which-th set bit, counting from one
Nth(s, which) == IF which < 1 \/ which > Cardinality(s) THEN -1 ELSE SortSeq(SetToSeq(s), LAMBDA a, b : a < b)[which]
Byte(s, k) == FoldLeft(LAMBDA a, j : IF (8 * k + j) \in s THEN a + 2 ^ j ELSE a, 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
Big(a, b) == IF a >= b THEN a ELSE b
Combine(op, b, c) == CASE op = "o" -> b \union c [] op = "a" -> b \intersect c [] op = "x" -> (b \ c) \union (c \ b) [] op = "d" -> b \ c
Cut(s, n) == [n |-> n, on |-> {p \in s.on : p < n}]
\* one operation <<what, string, argument, argument, returned>> on the four strings; "no" marks a wrong answer
Result(st, o) ==
  LET s == st[o[2] + 1] IN
  CASE o[1] = "?" -> IF o[3] \in s.on THEN 1 ELSE 0
    [] o[1] = "c" -> Cardinality(s.on)
    [] o[1] = "i" -> Nth(s.on, o[3])
    [] o[1] = "z" -> s.n
    [] o[1] = "b" -> [k \in 1..((s.n + 7) \div 8) |-> Byte(s.on, k - 1)]
    [] OTHER -> 0
Apply(st, o) ==
  LET x == o[2] + 1
      s == st[x] IN
  CASE o[1] = "n" -> [st EXCEPT ![x] = Cut(s, o[3])]
    [] o[1] = "+" -> IF o[3] < s.n THEN [st EXCEPT ![x].on = @ \union {o[3]}] ELSE st
    [] o[1] = "-" -> [st EXCEPT ![x].on = @ \ {o[3]}]
    [] o[1] = "0" -> [st EXCEPT ![x].on = {}]
    [] o[1] = "1" -> [st EXCEPT ![x].on = 0..(s.n - 1)]
    [] o[1] \in {"o", "a", "x", "d"} ->
         LET b == o[3] + 1
             c == o[4] + 1
             long == Big(st[b].n, st[c].n) IN
         \* the operands grow to the longer of the two, and so does the answer
         [st EXCEPT ![b].n = long, ![c].n = long, ![x] = [n |-> long, on |-> Combine(o[1], st[b].on, st[c].on)]]
    [] OTHER -> st
BitsOk(ops) == FoldLeft(LAMBDA a, o : [st |-> Apply(a.st, o), ok |-> a.ok /\ o[5] = Result(a.st, o)],
                        [st |-> <<Blank, Blank, Blank, Blank>>, ok |-> TRUE], ops).ok
(* ---- streams: bit k of the stream is bit k % 8 of byte k / 8 *)
Flat(pushed) == FoldLeft(LAMBDA a, x : a \o x, <<>>, pushed)
ByteAt(bits, k) == FoldLeft(LAMBDA a, j : IF 8 * k + j < Len(bits) THEN a + bits[8 * k + j + 1] * 2 ^ j ELSE a, 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
StreamOk(room, pushed, used, bytes, back, beyond) ==
  LET bits == Flat(pushed)
      need == (Len(bits) + 7) \div 8 IN
  /\ ~ beyond
  /\ IF need <= room THEN /\ used = need /\ bytes = [k \in 1..need |-> ByteAt(bits, k - 1)]
                          /\ (need > 0 => back = pushed)
     ELSE used = 0
=============================================================================
