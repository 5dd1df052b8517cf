--------------------------- MODULE CommandTrace ----------------------------
EXTENDS Command, Json, IOUtils, TLC
VARIABLES i, opts, vals
Trace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<i, opts, vals>>
\* vals has no entry for notes that have no variable
Step(e) ==
  CASE e.e = "reset" -> opts' = <<>> /\ vals' = <<>>
    [] e.e = "options" -> opts' = e.opts /\ vals' = e.vals
    [] e.e = "usage" -> e.text = Usage(opts) /\ UNCHANGED <<opts, vals>>
    [] e.e = "parse" -> \E r \in {Parse(opts, [vals |-> vals, says |-> <<>>], e.args)} :
         /\ e.ok = (r.says = <<>>) /\ e.says = r.says
         /\ \A k \in DOMAIN vals : Same(opts[k].type, r.vals[k], e.vals[k])
         /\ vals' = e.vals /\ UNCHANGED opts
Init == i = 1 /\ opts = <<>> /\ vals = <<>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_vars
View == <<i>>
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
