---------------------------- MODULE UnicodeTrace ----------------------------
EXTENDS Unicode, Json, IOUtils
Database == JsonDeserialize(IOEnv.DATABASE)
VARIABLE at
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.e = "reset" -> TRUE
    [] e.e = "class" -> e.ranges = Class(e.name)
    [] e.e = "ascii" -> e.ranges = Ascii(e.name)
    [] e.e = "cased" -> e.map = Cased(e.name)
    \* the code points that neither decompose nor fold stand for themselves if they are letters or digits, and for nothing otherwise
    [] e.e = "plain" -> e.itself = Alnum /\ e.neither = <<>>
    [] e.e = "normal" -> \A n \in 1..Len(e.rows) : e.rows[n][2] = Normal(e.rows[n][1])
    [] e.e = "length" -> e.rows = << <<0, 127, 1>>, <<128, 2047, 2>>, <<2048, 65535, 3>>, <<65536, 1114111, 4>> >> /\ e.back
    [] e.e = "encode" -> \A n \in 1..Len(e.rows) : e.rows[n][2] = Encode(e.rows[n][1])
    [] e.e = "decode" -> \A n \in 1..Len(e.rows) : LET r == e.rows[n] IN r[2] = Taken(r[1]) /\ r[3] = Decode(r[1]) /\ r[4] = Taken(r[1])
Init == at = 1
Next == at <= Len(Trace) /\ at' = at + 1 /\ Step(Trace[at])
Spec == Init /\ [][Next]_at
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
