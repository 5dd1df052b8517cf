---------------------------- MODULE EvalTrace ----------------------------
EXTENDS Eval, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Judged(e, t) == LET rows == SelectSeq(e.judged, LAMBDA r : r[1] = t) IN [d \in {rows[n][2] : n \in 1..Len(rows)} |-> (CHOOSE r \in Range(rows) : r[2] = d)[3]]
Priced(e) == [d \in {e.prices[n][1] : n \in 1..Len(e.prices)} |-> (CHOOSE r \in Range(e.prices) : r[1] = d)[2]]
Topics(e) == {e.judged[n][1] : n \in 1..Len(e.judged)}
All(e, t, run) ==
  LET j == Judged(e, t)
      s == Scores(j, Priced(e), run, e.depth, e.k, e.p)
  IN IF e.prices = <<>> THEN s ELSE s @@ PriceScores(j, Priced(e), run, e.depth, e.k)
EvalOk(e) ==
  LET want == All(e, e.topic, e.run) IN
  /\ DOMAIN e.scores = DOMAIN want
  /\ \A m \in DOMAIN want : (m = "BP4K" /\ Relevant(Judged(e, e.topic)) = {}) \/ (m = "ESL" /\ e.depth = 0 /\ First(Judged(e, e.topic), e.run) > Len(e.run)) \/ Near(e.scores[m], want[m], 100)
Cutoffs == <<5, 10, 15, 20, 30, 100, 200, 500, 1000>>
\* what the tool prints of one topic.  Precision, recall and F are of the whole run, and at the fixed depths
Printed(e, t, run) ==
  LET j == Judged(e, t) s == All(e, t, run) IN
  [m \in DOMAIN s |-> CASE m = "P" -> Precision(j, run, 0) [] m = "R" -> Recall(j, run, 0) [] m = "F1" -> F(j, run, 0) [] OTHER -> s[m]]
Counts(e, t, run) == [NumberofQueries |-> One, NumberRelevant |-> Cardinality(Relevant(Judged(e, t))) * One,
                      NumberofResultsReturned |-> Len(run) * One, NumberRelevantReturned |-> Returned(Judged(e, t), run)]
CutScores(e, t, run) == LET j == Judged(e, t) IN
  ("P_5" :> Precision(j, run, 5)) @@ ("R_5" :> Recall(j, run, 5)) @@ ("F1_5" :> F(j, run, 5)) @@ ("P_10" :> Precision(j, run, 10)) @@ ("R_10" :> Recall(j, run, 10)) @@ ("F1_10" :> F(j, run, 10))
  @@ ("P_15" :> Precision(j, run, 15)) @@ ("R_15" :> Recall(j, run, 15)) @@ ("F1_15" :> F(j, run, 15)) @@ ("P_20" :> Precision(j, run, 20)) @@ ("R_20" :> Recall(j, run, 20)) @@ ("F1_20" :> F(j, run, 20))
  @@ ("P_30" :> Precision(j, run, 30)) @@ ("R_30" :> Recall(j, run, 30)) @@ ("F1_30" :> F(j, run, 30)) @@ ("P_100" :> Precision(j, run, 100)) @@ ("R_100" :> Recall(j, run, 100)) @@ ("F1_100" :> F(j, run, 100))
  @@ ("P_200" :> Precision(j, run, 200)) @@ ("R_200" :> Recall(j, run, 200)) @@ ("F1_200" :> F(j, run, 200)) @@ ("P_500" :> Precision(j, run, 500)) @@ ("R_500" :> Recall(j, run, 500)) @@ ("F1_500" :> F(j, run, 500))
  @@ ("P_1000" :> Precision(j, run, 1000)) @@ ("R_1000" :> Recall(j, run, 1000)) @@ ("F1_1000" :> F(j, run, 1000))
Measured(e, t, run) == LET a == Printed(e, t, run) IN [m \in DOMAIN a \ {"RelRet"} |-> a[m]] @@ CutScores(e, t, run)
Slack == 300
ToolOk(e) ==
  /\ e.ended
  /\ LET n == Len(e.runs)
         found == [r \in 1..n |-> First(Judged(e, e.runs[r][1]), e.runs[r][2]) <= Len(e.runs[r][2])]
         per == [r \in 1..n |-> Measured(e, e.runs[r][1], e.runs[r][2])]
         cnt == [r \in 1..n |-> Counts(e, e.runs[r][1], e.runs[r][2])]
         over == IF e.zeroless THEN n ELSE Cardinality(Topics(e))
         Block(t) == LET b == SelectSeq(e.blocks, LAMBDA x : x.topic = t) IN IF Len(b) = 1 THEN b[1].scores ELSE <<>>
         Skip(m, r) == (m = "ESL" /\ e.depth = 0 /\ ~found[r]) \/ (m = "BP4K" /\ Relevant(Judged(e, e.runs[r][1])) = {})
     IN /\ Len(e.blocks) = n + 1
        /\ \A r \in 1..n : LET b == Block(e.runs[r][1]) IN
             /\ \A m \in DOMAIN per[r] : m \in DOMAIN b /\ (Skip(m, r) \/ Near(b[m], per[r][m], Slack))
             /\ \A m \in DOMAIN cnt[r] : m \in DOMAIN b /\ b[m] = cnt[r][m]
        /\ LET b == Block(-1) IN
             /\ \A m \in DOMAIN per[1] : m \in DOMAIN b /\ ((\E r \in 1..n : Skip(m, r)) \/ Near(b[m], Sum([r \in 1..n |-> per[r][m]]) \div over, Slack))
             /\ \A m \in DOMAIN cnt[1] : m \in DOMAIN b /\ b[m] = Sum([r \in 1..n |-> cnt[r][m]])
Step(e) == CASE e.e = "reset" -> TRUE [] e.e = "eval" -> EvalOk(e) [] e.e = "tool" -> ToolOk(e)
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_i
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
