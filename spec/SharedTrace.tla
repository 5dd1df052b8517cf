----------------------------- MODULE SharedTrace -----------------------------
EXTENDS Shared, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.e = "reset" -> TRUE
    [] e.e = "note" -> TRUE
    [] e.e = "array" -> ArrayOk(e.ops, e.seen, e.index, e.back, e.total, e.size, e.part, e.beyond)
    [] e.e = "map" -> MapOk(e.calls, e.final, e.ordered)
    [] e.e = "pool" -> PoolOk(e.blocks, e.size, e.capacity) /\ e.rewound = <<0, 0>>
    [] e.e = "memory" -> MemoryOk(e.blocks, e.size, e.capacity, e.base, e.length) /\ AskedOk(e.asked, e.size, e.base, e.length) /\ e.rewound = <<0, e.length>>
    [] e.e = "stuck" -> FALSE
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_i
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
