---------------------------- MODULE GeneralTrace ----------------------------
EXTENDS General, TLC, TLCExt, Json, IOUtils
VARIABLE i
Events == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.e = "reset" -> TRUE
    [] e.e = "encode" -> EncodeOk(e.n, e.limit, e.got, e.past) /\ e.kept
    [] e.e = "decode" -> DecodeOk(e.n, e.room, e.cut, e.hurt, e.got, e.same, e.past) /\ e.kept
Init == i = 1
Next == i <= Len(Events) /\ i' = i + 1 /\ Step(Events[i])
Spec == Init /\ [][Next]_i
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Events)>>)
=============================================================================
