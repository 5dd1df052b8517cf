----------------------------- MODULE ClaimTrace -----------------------------
(* Recorded claims: the projection of Claim.tla onto <<who claimed what, who left>>. *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
VARIABLES i, n, claimed, gone, workers
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.e = "reset" -> n' = 0 /\ claimed' = {} /\ gone' = {} /\ workers' = 0
    [] e.e = "start" -> n' = e.queries /\ claimed' = {} /\ gone' = {} /\ workers' = e.workers
    [] e.e = "claim" -> e.w \notin gone /\ e.q \notin claimed /\ e.q \in 1..n /\ claimed' = claimed \cup {e.q} /\ UNCHANGED <<n, gone, workers>>
    [] e.e = "exhausted" -> claimed = 1..n /\ e.w \notin gone /\ gone' = gone \cup {e.w} /\ UNCHANGED <<n, claimed, workers>>
    [] e.e = "end" -> gone = 1..workers /\ claimed = 1..n /\ UNCHANGED <<n, claimed, gone, workers>>
    [] e.e = "claimed" ->       \* a whole parallel run: the workers' claims partition the list
         /\ \A q \in 1..e.queries : Cardinality({<<a, b>> \in (1..Len(e.by)) \X (1..e.queries) : b <= Len(e.by[a]) /\ e.by[a][b] = q}) = 1
         /\ \A a \in 1..Len(e.by) : Len(e.by[a]) <= e.queries /\ \A b \in 1..Len(e.by[a]) : e.by[a][b] \in 1..e.queries /\ (b > 1 => e.by[a][b] > e.by[a][b-1])
         /\ UNCHANGED <<n, claimed, gone, workers>>
    [] e.e = "note" -> UNCHANGED <<n, claimed, gone, workers>>
    [] e.e = "stuck" -> FALSE /\ UNCHANGED <<n, claimed, gone, workers>>
Init == i = 1 /\ n = 0 /\ claimed = {} /\ gone = {} /\ workers = 0
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_<<i, n, claimed, gone, workers>>
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
