---------------------------- MODULE Stats ----------------------------
(* Correlation of two lists of scores and the paired t-test, of integers, in fixed point: a share of one is given in parts of `K`. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC
K == 32768
RECURSIVE Bits(_, _, _, _)
Bits(r, d, n, acc) == IF n = 0 THEN acc ELSE Bits((r * 2) % d, d, n - 1, acc * 2 + ((r * 2) \div d))
Share(n, d) == IF n = d THEN K ELSE Bits(n, d, 15, 0)                     \* n / d, of 0 <= n <= d < 2^30
RECURSIVE Root_(_, _, _)
Root_(v, low, high) == IF low = high THEN low ELSE LET m == (low + high + 1) \div 2 IN IF m * m <= v * K THEN Root_(v, m, high) ELSE Root_(v, low, m - 1)
Root(v) == Root_(v, 0, K)
Times(a, b) == (a * b) \div K
Total(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Products(a, b) == Total([i \in DOMAIN a |-> a[i] * b[i]])

\* twice the rank of each score: equal scores share the middle of their places
Ranks(s) == [i \in DOMAIN s |-> 2 * Cardinality({j \in DOMAIN s : s[j] < s[i]}) + Cardinality({j \in DOMAIN s : s[j] = s[i]}) + 1]

(* ---- correlation: sign and square, or nothing if either list is all the same ---- *)
Spread(a) == Len(a) * Products(a, a) - Total(a) * Total(a)
Common(a, b) == Len(a) * Products(a, b) - Total(a) * Total(b)
Correlated(a, b) == Spread(a) # 0 /\ Spread(b) # 0
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Square(a, b) == LET c == Common(a, b) IN Share(c * c, Spread(a) * Spread(b))
\* `r` in ten thousandths
CorrelationOk(a, b, r) ==
  /\ r \in -10000..10000
  /\ LET c == Common(a, b) sq == Square(a, b) mine == (r * r) \div 3052 IN       \* 10^8 / K, nearly
       /\ (c = 0 => r = 0) /\ Sign(r) \in {Sign(c), 0}
       /\ mine - sq <= 12 + sq \div 4000 /\ sq - mine <= 12 + sq \div 4000

(* ---- the paired t-test: the share of the squared differences that their mean explains decides ---- *)
Differences(a, b) == [i \in DOMAIN a |-> a[i] - b[i]]
Explained(d) == Total(d) * Total(d)
Whole(d) == Len(d) * Products(d, d)
Third == 17157   \* pi / 6
HalfPi == 51472
Series(x) == LET q == Times(x, x) c == Times(q, x) f == Times(c, q) s == Times(f, q) n == Times(s, q) IN x + c \div 6 + (3 * f) \div 40 + (15 * s) \div 336 + (105 * n) \div 3456
\* the angle whose sine is s and cosine is c
Angle(s, c) == IF s < K \div 2 THEN Series(s) ELSE IF c < K \div 2 THEN HalfPi - Series(c) ELSE 2 * Series(Root((K - c) \div 2))
RECURSIVE Sum_(_, _, _, _, _)
Sum_(i, top, term, sum, csq) == IF i > top THEN sum ELSE LET t == Times((term * (i - 1)) \div i, csq) IN Sum_(i + 2, top, t, sum + t, csq)
\* how much of the t distribution lies within the value whose share v = t^2 / (t^2 + nu) is given
Within(v, nu) ==
  LET s == Root(v) csq == K - v c == Root(csq) IN
  IF nu % 2 = 0 THEN Times(s, Sum_(2, nu - 2, K, K, csq))
  ELSE ((Angle(s, c) + (IF nu = 1 THEN 0 ELSE Times(s, Sum_(3, nu - 2, c, c, csq)))) * 10000) \div 15708
Lower(x, y) == IF x < y THEN x ELSE y
Beyond(v, nu) == (K - Lower(K, Within(v, nu))) \div 2
\* `p` in hundred thousandths; one tail
Slack == 60
ProbabilityOk(d, tails, p) ==
  LET v == Share(Explained(d), Whole(d)) nu == Len(d) - 1
      low == (Beyond(Lower(K, v + 1), nu) * 3125) \div 1024
      high == (Beyond(v, nu) * 3125) \div 1024                       \* 10^5 / K
  IN p >= tails * (low - Slack) /\ p <= tails * (high + Slack)
\* lists of other lengths or of one element say nothing; all differences alike give no finite t (the value is then not specified unless it is a limit)
TestOk(a, b, tails, p) ==
  IF Len(a) # Len(b) \/ Len(a) <= 1 THEN p = 100000
  ELSE LET d == Differences(a, b) IN IF Explained(d) = Whole(d) THEN p \in {0, -1} /\ (Whole(d) = 0 => p = -1) ELSE ProbabilityOk(d, tails, p)
=============================================================================
