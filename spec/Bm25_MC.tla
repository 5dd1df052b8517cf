------------------------------ MODULE Bm25_MC ------------------------------
(* The laws of the ranking function on every small collection: two occurrences in it, compared. *)
EXTENDS Bm25
CONSTANTS Docs, Most, Long
VARIABLES n, sum, x, y
vars == <<n, sum, x, y>>
Facts(m, s) == {f \in [df : 1..m, tf : 1..Most, len : 1..Long] : f.tf <= f.len /\ f.len <= s}
\* a fact beside one with a little more evidence; what holds for neighbours holds for all
Near(f, m, s) == {g \in {[f EXCEPT !.tf = @ + 1], [f EXCEPT !.len = @ - 1], [f EXCEPT !.df = @ - 1]} : g \in Facts(m, s)}
Init == n \in 1..Docs /\ sum \in {n, n + 1, 3 * n, n * Long} /\ x \in Facts(n, sum) /\ y \in Facts(n, sum) \cap {[df |-> n, tf |-> 1, len |-> Long], [df |-> 1, tf |-> 1, len |-> 1]}
Next == y' \in Near(x, n, sum) /\ UNCHANGED <<n, sum, x>>
Spec == Init /\ [][Next]_vars
S(f) == Score(n, sum, f.df, f.tf, f.len)
Better == y.tf >= x.tf /\ y.len <= x.len /\ y.df <= x.df
Monotone == Better => S(y) >= S(x)
Strict == (Better /\ x # y /\ y.df < n) => S(y) > S(x)
Everywhere == x.df = n => S(x) = 0
Bound == S(x) <= 2 * (Ln[n] - Ln[x.df])            \* k1 + 1 at most
Order == LET i == Impacts(S(x), 0, High(S(x), S(y))) j == Impacts(S(y), 0, High(S(x), S(y))) IN
           S(x) >= S(y) => \A a \in {CHOOSE a \in i : \A o \in i : a >= o} : \E b \in j : a >= b
Ends == LET hi == High(S(x), S(y)) IN hi > 2000 => LargestImpact \in Impacts(hi, 0, hi) /\ 1 \in Impacts(0, 0, hi)
Narrow == LET hi == High(S(x), S(y)) IN hi > 200000 => Cardinality(Impacts(S(x), 0, hi)) <= 2
Undone == \A a \in {S(x)} : \A b \in {High(1, S(y))} : a <= b => Times(Ratio(a, b), b) \in (a - 2 - (b \div Million))..a
============================================================================
