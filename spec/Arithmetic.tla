----------------------------- MODULE Arithmetic -----------------------------
(* Numbers as the sets of their bits, so that those of 64 bits can be spoken   *)
(* of: the logarithm rounded down is the highest place, the number of bits a   *)
(* value needs (its logarithm rounded up, where it is no power of two) one     *)
(* more, and the first set bit the lowest place (each 0 for 0).  The square    *)
(* root is rounded down.                                                       *)
EXTENDS Integers, FiniteSets
Highest(b) == CHOOSE p \in b : \A q \in b : q <= p
Lowest(b) == CHOOSE p \in b : \A q \in b : q >= p
Floor(b) == IF b = {} THEN 0 ELSE Highest(b)
Needs(b) == IF b = {} THEN 0 ELSE Highest(b) + 1
First(b) == IF b = {} THEN 0 ELSE Lowest(b)
\* without multiplying beyond what TLC can hold
IsRoot(r, x) == r >= 0 /\ (r = 0 \/ r <= x \div r) /\ r + 1 > x \div (r + 1)
=============================================================================
