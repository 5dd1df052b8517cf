----------------------------- MODULE ToolsTrace -----------------------------
EXTENDS Tools, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) == CASE e.e = "reset" -> TRUE
             [] e.e = "assessments" -> AssessmentsOk(e.docs, e.matrix, e.prices, e.lines)
             [] e.e = "run" -> e.lines = RunLines(e.docs, e.run, e.training, 1)
             [] e.e = "readable" -> e.printed = Readable(e.lists, e.cut)
             [] e.e = "hash" -> Len(e.printed) = Len(e.given) /\ \A k \in DOMAIN e.given : e.printed[k] = Fletcher(e.given[k])
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_i
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
