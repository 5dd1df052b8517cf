---------------------------- MODULE Arithmetic_MC ----------------------------
(* A number counted up from 0, and as bits added with a carry: the two agree,  *)
(* and the places say what the definitions of the logarithms say.              *)
EXTENDS Arithmetic, TLC
CONSTANT Top
VARIABLES x, b, r
vars == <<x, b, r>>
RECURSIVE Add(_, _)
Add(s, p) == IF p \in s THEN Add(s \ {p}, p + 1) ELSE s \cup {p}
RECURSIVE Value(_)
Value(s) == IF s = {} THEN 0 ELSE LET p == Lowest(s) IN 2^p + Value(s \ {p})
Init == x = 0 /\ b = {} /\ r = 0
Next == x < Top /\ x' = x + 1 /\ b' = Add(b, 0) /\ r' = (IF (r + 1) * (r + 1) <= x + 1 THEN r + 1 ELSE r)
Agree == Value(b) = x
Logs == x > 0 => /\ 2^Floor(b) <= x /\ x < 2^(Floor(b) + 1) /\ x < 2^Needs(b) /\ 2^(Needs(b) - 1) <= x
                 /\ x % 2^First(b) = 0 /\ (x \div 2^First(b)) % 2 = 1
Roots == IsRoot(r, x) /\ \A q \in 0..(r + 2) : IsRoot(q, x) => q = r
Spec == Init /\ [][Next]_vars
=============================================================================
