---------------------------- MODULE StructsTrace ----------------------------
EXTENDS Ordered, Zeroed, Json, IOUtils
B == INSTANCE Bits
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Step(e) ==
  CASE e.e = "reset" -> TRUE
    [] e.e = "heap" -> HeapOk(e.op, e.x, e.y, e.before, e.after, e.ret)
    [] e.e = "beap" -> BeapOk(e.op, e.x, e.y, e.before, e.after, e.ret) /\ e.good = IsBeap(e.after)
    [] e.e = "topk" -> TopOk(e.k, e.ops, e.capacity, e.size)
    [] e.e = "sort" -> SortOk(e.k, e.before, e.after)
    [] e.e = "acc" -> AccumulatorsOk(e.ops, e.top)
    [] e.e = "simd" -> SimdOk(e.op, e.top, e.before, e.after, e.at, e.value, e.out)
    [] e.e = "simdsum" -> SumOk(e.value, e.out)
    [] e.e = "bits" -> B!BitsOk(e.ops)
    [] e.e = "stream" -> B!StreamOk(e.room, e.pushed, e.used, e.bytes, e.back, e.beyond)
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_i
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
