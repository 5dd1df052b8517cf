----------------------------- MODULE IndexTrace -----------------------------
EXTENDS Index, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.e = "reset" -> keys' = <<>> /\ lens' = <<>> /\ post' = <<>> /\ open' = FALSE /\ files' = <<>>
    [] e.e = "new" -> New
    [] e.e = "begin" -> Begin(e.key)
    [] e.e = "tok" -> Tok(e.t, e.c)
    [] e.e = "end" -> End(e.len)
    [] e.e = "skip" -> Skip(e.n)
    [] e.e = "keys" -> SetKeys(e.keys)
    [] e.e = "list" -> List(e.t, e.p)
    [] e.e = "iterate" -> Iterate(e)
    [] e.e = "impacts" -> Impacts(e)
    [] e.e = "render" -> Render(e)
    [] e.e = "quantize" -> Quantize(e)
    [] e.e = "quantize_none" -> QuantizeNone(e)
    [] e.e = "bm25" -> Bm25(e)
    [] e.e = "write" -> WriteFiles(e)
    [] e.e = "read" -> ReadFiles(e)
    [] e.e = "integers" -> Integers_(e)
    [] e.e = "forward" -> Forward(e)
Init == IndexInit /\ i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_<<ivars, i>>
TraceView == <<i>>
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
