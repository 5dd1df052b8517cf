------------------------------- MODULE Zeroed -------------------------------
(* What every set of accumulators owes the search engine, however it clears    *)
(* itself: after each rewind it is an array of zeroes.  And what the vector    *)
(* forms of array access owe: exactly what the scalar form does, lane by lane. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Of(val, x) == IF x \in DOMAIN val THEN val[x] ELSE 0
\* arithmetic of an unsigned integer with `top` values (0: wide enough for anything here)
Clip(v, top) == IF top = 0 THEN v ELSE v % top
\* op: <<what, argument, argument, returned>>
Do(s, o, top) ==
  CASE o[1] = "I" -> [s EXCEPT !.n = o[2], !.val = <<>>]
    [] o[1] \in {"r", "R"} -> [s EXCEPT !.val = <<>>]
    [] o[1] = "a" -> LET v == Clip(Of(s.val, o[2]) + o[3], top) IN [s EXCEPT !.val = (o[2] :> v) @@ @, !.ok = @ /\ o[4] = v]
    [] o[1] = "s" -> LET v == Clip(o[3], top) IN [s EXCEPT !.val = (o[2] :> v) @@ @, !.ok = @ /\ o[4] = v]
    [] o[1] = "g" -> [s EXCEPT !.ok = @ /\ o[4] = Of(s.val, o[2])]
    [] o[1] = "z" -> [s EXCEPT !.ok = @ /\ o[4] = s.n]
    [] o[1] = "x" -> [s EXCEPT !.ok = @ /\ o[4] = o[2]]
    [] o[1] \in {"v", "V"} -> [s EXCEPT !.ok = @ /\ o[4] = [k \in DOMAIN o[2] |-> Of(s.val, o[2][k])]]
AccumulatorsOk(ops, top) == FoldLeft(LAMBDA s, o : Do(s, o, top), [n |-> 0, val |-> <<>>, ok |-> TRUE], ops).ok
(* ---- vector access *)
ScatterTo(a, at, value, top) == FoldLeft(LAMBDA b, k : [b EXCEPT ![at[k] + 1] = Clip(value[k], top)], a, [k \in 1..Len(at) |-> k])
SimdOk(op, top, before, after, at, value, out) ==
  CASE op = "gather" -> after = before /\ out = [k \in DOMAIN at |-> before[at[k] + 1]]
    [] op = "scatter" -> after = ScatterTo(before, at, value, top)
SumOk(value, out) == out = [k \in DOMAIN value |-> FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(value, 1, k))]
=============================================================================
