---------------------------- MODULE FilesTrace ----------------------------
EXTENDS Files, Integers, Json, IOUtils
VARIABLES i, disk, dirs, open
Trace == ndJsonDeserialize(IOEnv.TRACE)
vars == <<i, disk, dirs, open>>
Closed == [name |-> "", data |-> <<>>, at |-> 0]
At(name) == IF name \in DOMAIN disk THEN disk[name] ELSE <<>>
Put(name, bytes) == disk' = (name :> bytes) @@ disk
Keep == UNCHANGED <<disk, dirs, open>>
Step(e) ==
  CASE e.e = "reset" -> disk' = <<>> /\ dirs' = {} /\ open' = Closed
    [] e.e = "put" -> e.ok = e.there /\ (IF e.there THEN Put(e.name, e.bytes) ELSE UNCHANGED disk) /\ UNCHANGED <<dirs, open>>
    [] e.e = "get" -> e.bytes = At(e.name) /\ e.size = Len(At(e.name)) /\ Keep
    [] e.e = "map" -> e.bytes = At(e.name) /\ e.size = Len(At(e.name)) /\ e.length = e.size /\ Keep
    [] e.e = "look" -> e.bytes = At(e.name) /\ Keep
    [] e.e = "mkdir" -> dirs' = dirs \cup {e.name} /\ UNCHANGED <<disk, open>>
    [] e.e = "isdir" -> e.yes = (e.name \in dirs) /\ Keep
    [] e.e = "lines" -> e.lines = Lines(e.text) /\ Keep
    [] e.e = "open" -> open' = [name |-> e.name, data |-> IF e.fresh THEN <<>> ELSE At(e.name), at |-> 0] /\ UNCHANGED <<disk, dirs>>
    [] e.e = "write" -> e.wrote = Len(e.bytes) /\ open' = [open EXCEPT !.data = WriteAt(@, open.at, e.bytes), !.at = @ + Len(e.bytes)] /\ UNCHANGED <<disk, dirs>>
    [] e.e = "read" -> e.bytes = ReadAt(open.data, open.at, e.n) /\ open' = [open EXCEPT !.at = @ + Len(e.bytes)] /\ UNCHANGED <<disk, dirs>>
    [] e.e = "seek" -> open' = [open EXCEPT !.at = e.to] /\ UNCHANGED <<disk, dirs>>
    [] e.e = "tell" -> e.at = open.at /\ Keep
    [] e.e = "size" -> e.size = Len(open.data) /\ Keep
    [] e.e = "close" -> Put(open.name, open.data) /\ open' = Closed /\ UNCHANGED dirs
    [] e.e = "source" -> SourceOk(e.kind, e.parts, e.asked, e.got) /\ e.kept = 0 /\ Keep      \* kept: megabytes still held when it is gone
    [] e.e = "send" -> Put(e.name, At(e.name) \o SentAll(e.items)) /\ UNCHANGED <<dirs, open>>
    [] e.e = "hear" -> HeardOk(IF e.name = "buffer" THEN e.text ELSE At(e.name), e.asks, e.got) /\ Keep
    [] e.e = "topics" -> e.got = Topics(e.text, e.classes, Range(e.tags)) /\ e.after = 0 /\ Keep
Init == i = 1 /\ disk = <<>> /\ dirs = {} /\ open = Closed
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
===========================================================================
