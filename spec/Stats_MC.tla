---------------------------- MODULE Stats_MC ----------------------------
EXTENDS Stats
CONSTANTS Values, Longest
VARIABLES a, b
vars == <<a, b>>
Init == a = <<>> /\ b = <<>>
Next == Len(a) < Longest /\ \E x, y \in Values : a' = Append(a, x) /\ b' = Append(b, y)
Spec == Init /\ [][Next]_vars
RanksOk == /\ Total(Ranks(a)) = Len(a) * (Len(a) + 1)
           /\ \A i, j \in DOMAIN a : (a[i] < a[j]) <=> (Ranks(a)[i] < Ranks(a)[j])
Abs(x) == IF x < 0 THEN -x ELSE x
Negated(s) == [i \in DOMAIN s |-> -s[i]]
CorrelationLaws ==
  Correlated(a, b) =>
    /\ Square(a, b) = Square(b, a) /\ Square(a, b) \in 0..K
    /\ Common(a, a) = Spread(a) /\ Square(a, a) = K /\ Square(a, Negated(a)) = K
    /\ CorrelationOk(a, a, 10000) /\ CorrelationOk(a, Negated(a), -10000) /\ ~CorrelationOk(a, a, -10000) /\ ~CorrelationOk(a, a, 9950)
    \* ranking is enough for lists that rise together
    /\ ((\A i, j \in DOMAIN a : a[i] < a[j] <=> b[i] < b[j]) => CorrelationOk(Ranks(a), Ranks(b), 10000))
TestLaws ==
  Len(a) > 1 => LET d == Differences(a, b) e == Differences(b, a) IN
    Explained(d) # Whole(d) => LET v == Share(Explained(d), Whole(d)) IN
      /\ v \in 0..(K - 1) /\ Explained(d) = Explained(e) /\ Whole(d) = Whole(e)
      /\ Beyond(v, Len(a) - 1) \in 0..(K \div 2 + 2)
      /\ (Explained(d) = 0 => ProbabilityOk(d, 1, 50000) /\ ProbabilityOk(d, 2, 100000))
\* values of the published table: v = t^2 / (t^2 + nu)
Table == << <<1, 16384, 25000>>, <<1, 31966, 5000>>, <<2, 26542, 5000>>, <<3, 21255, 5000>>, <<4, 17428, 5000>>, <<9, 8908, 5000>>, <<10, 8103, 5000>>, <<9, 15380, 1000>>, <<20, 7935, 1000>>, <<20, 4243, 5000>>,
            <<2, 10923, 21132>> >>
Diff(x, y) == Abs(x - y)
\* the tail shrinks as t grows, and is that of the table
ASSUME \A n \in DOMAIN Table : Diff((Beyond(Table[n][2], Table[n][1]) * 3125) \div 1024, Table[n][3]) <= 40
ASSUME \A nu \in 1..24 : \A v \in {k * 512 : k \in 0..63} : Beyond(v, nu) + 12 >= Beyond(v + 512, nu)
=============================================================================
