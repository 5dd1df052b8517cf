----------------------------- MODULE CodecTrace -----------------------------
EXTENDS Codec, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.e = "reset" -> TRUE
    [] e.e = "codec" -> EncodeOk(e.c, e.in, e.limit, e.got, e.past, e.out) /\ (e.got > 0 /\ e.bytes # <<>> /\ e.c \in Formats => Decode(e.c, e.bytes, Len(e.in)) = e.in)
    [] e.e = "again" -> e.same
    [] e.e = "d1" -> e.enc = D1(e.in) /\ e.dec = e.in /\ e.got = Len(e.in)
    [] e.e = "dn" -> e.enc = Dn(e.in, e.n) /\ e.dec = e.in /\ e.got = Len(e.in)
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_i
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
