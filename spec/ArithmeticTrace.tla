--------------------------- MODULE ArithmeticTrace ---------------------------
EXTENDS Arithmetic, Sequences, TLC, TLCExt, Json, IOUtils
VARIABLE i
Events == ndJsonDeserialize(IOEnv.TRACE)
Bits(e) == {e.x[k] : k \in DOMAIN e.x}
Step(e) ==
  CASE e.e = "reset" -> TRUE
    [] e.e = "log" -> e.floor = Floor(Bits(e)) /\ e.ceiling = Needs(Bits(e)) /\ e.first = First(Bits(e))
    [] e.e = "root" -> IsRoot(e.root, e.x)
Init == i = 1
Next == i <= Len(Events) /\ i' = i + 1 /\ Step(Events[i])
Spec == Init /\ [][Next]_i
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Events)>>)
=============================================================================
