---------------------------- MODULE TextTrace ----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
K == INSTANCE Tokens
D == INSTANCE Docs
P == INSTANCE Porter
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.e = "reset" -> TRUE
    [] e.e = "parse" -> e.ended /\ e.tokens = K!Tokens(e.kind, e.text, e.classes, e.k)
    [] e.e = "query" -> K!QueryOk(e.kind, e.text, e.classes, e.terms)
    [] e.e = "split" -> D!SplitOk(e.kind, e.size, e.text, e.docs, e.after)
    [] e.e = "coil" -> e.docs = e.wrote /\ e.after = 0
    [] e.e = "stem" -> e.stem = P!Stem(e.word)
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_i
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
