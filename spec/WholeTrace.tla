----------------------------- MODULE WholeTrace -----------------------------
EXTENDS Whole, Json, IOUtils
VARIABLES i, made, ix
Trace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<i, made, ix>>
None == [version |-> 0]
Step(e) ==
  CASE e.e = "reset" -> made' = None /\ ix' = None
    [] e.e = "index" -> \E c \in {Collection(e)} :
         /\ e.rc = 0 /\ e.docs = Len(c.keys) /\ e.length = TotalLength(c)
         /\ made' = [version |-> e.version, c |-> c] /\ ix' = None
    [] e.e = "ciff" -> \E x \in {TLCEval(I!Ciff(e.text))} :
         IF x.ok THEN \E c \in {Imported(e, x)} : e.rc = 0 /\ e.files = 4 /\ made' = [version |-> e.version, c |-> c] /\ ix' = None
         ELSE e.files = 0 /\ made' = None /\ ix' = None           \* refused: nothing is written
    [] e.e = "dump" ->        \* of the index made last, by a program that is told its version
         /\ e.rc = 0 /\ e.version = made.version
         /\ \E d \in {TLCEval(Shown(e))} : DumpOk(made.c, d) /\ ix' = [version |-> e.version, x |-> Loaded(d)]
         /\ UNCHANGED made
    [] e.e = "compiled" ->
         /\ e.rc = 0 /\ made.version = 3 /\ Len(e.keys) = Len(made.c.keys) + 1 /\ Rising(e)
         /\ \E d \in {TLCEval(Run(e))} : DumpOk(made.c, d)
         /\ UNCHANGED <<made, ix>>
    [] e.e = "dictionary" -> e.rc = 0 /\ {e.terms[k] : k \in DOMAIN e.terms} = Vocabulary(made.c) /\ Len(e.terms) = Cardinality(Vocabulary(made.c)) /\ UNCHANGED <<made, ix>>
    [] e.e = "search" -> e.rc = 0 /\ ix.version # 0 /\ (IF e.why THEN DOMAIN ix.x.terms = {} /\ ~e.ranked      \* an index without a word may be refused
                                                             ELSE RankingOk(ix.x, e)) /\ UNCHANGED <<made, ix>>
    [] e.e = "refused" -> e.rc = 0 /\ ~e.ranked /\ e.why /\ UNCHANGED <<made, ix>>      \* nothing to search: it says so and writes nothing
Init == i = 1 /\ made = None /\ ix = None
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_vars
View == <<i>>
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
