---------------------------- MODULE StatsTrace ----------------------------
EXTENDS Stats, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
NotNumber == -1999999999
CorrOk(a, b, r) == IF Correlated(a, b) THEN CorrelationOk(a, b, r) ELSE r = NotNumber
Cell(x, r) == IF Correlated(x[1], x[2]) THEN \E n \in -10000..10000 : r = ToString(n) /\ CorrelationOk(x[1], x[2], n) ELSE r \in {"nan", "-nan"}
\* the tool's table of correlations: rows and columns in the order of the metrics, over the ranks of the runs
TableOk(e) ==
  LET m == Len(e.given) ranks == [n \in 1..m |-> Ranks(e.given[n][2])] names == [n \in 1..m |-> e.given[n][1]] IN
  /\ Len(e.printed) = m + 1 /\ e.printed[1] = names
  /\ \A r \in 1..m : /\ Len(e.printed[r + 1]) = m + 1 /\ e.printed[r + 1][1] = names[r]
                     /\ \A c \in 1..m : Cell(<<ranks[r], ranks[c]>>, e.printed[r + 1][c + 1])
\* the tool's matrix of tests: each pair of runs on the queries both answer
Paired(x, y) == SelectSeq(x, LAMBDA q : \E k \in DOMAIN y : y[k][1] = q[1])
ScoreOf(y, q) == (CHOOSE r \in Range(y) : r[1] = q)[2]
MatrixCell(x, y, p) ==
  LET both == Paired(x, y)
      a == [k \in DOMAIN both |-> both[k][2]]
      b == [k \in DOMAIN both |-> ScoreOf(y, both[k][1])]
  IN IF Len(a) > 1 /\ a = b THEN p = "-"
     ELSE IF p = "!" THEN TestOk(a, b, 1, -1)
     ELSE \E n \in 0..10000 : p = ToString(n) /\ \E f \in {10 * n} : TestOk(a, b, 1, f)
MatrixOk(e) ==
  LET m == Len(e.given) names == [n \in 1..m |-> e.given[n][1]] IN
  /\ Len(e.printed) = m + 1 /\ e.printed[1] = names
  /\ \A r \in 1..m : /\ Len(e.printed[r + 1]) = m + 1 /\ e.printed[r + 1][1] = names[r]
                     /\ \A c \in 1..m : MatrixCell(e.given[r][2], e.given[c][2], e.printed[r + 1][c + 1])
Step(e) == CASE e.e = "reset" -> TRUE
             [] e.e = "ranks" -> e.ranks = Ranks(e.a)
             [] e.e = "corr" -> CorrOk(e.a, e.b, e.pearson) /\ CorrOk(Ranks(e.a), Ranks(e.b), e.spearman)
             [] e.e = "ttest" -> IF Len(e.a) # Len(e.b) \/ Len(e.a) <= 1 THEN e.one = 100000 /\ e.two = 100000 ELSE TestOk(e.a, e.b, 1, e.one) /\ TestOk(e.a, e.b, 2, e.two)
             [] e.e = "table" -> TableOk(e)
             [] e.e = "matrix" -> MatrixOk(e)
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_i
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
