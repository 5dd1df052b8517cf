----------------------------- MODULE EngineTrace -----------------------------
EXTENDS Engine, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Reset == def' = NoIndex /\ disk' = <<>> /\ Fresh
Step(e) ==
  CASE e.e = "reset" -> Reset
    [] e.e = "docs" -> DefineDocs(e.keys)
    [] e.e = "term" -> DefineTerm(e.t, e.p)
    [] e.e = "build" -> Build(e.dir, e.version, e.codec)
    [] e.e = "new" -> NewEngine
    [] e.e = "load" -> Load(e.version, e.dir, e.r)
    [] e.e = "set_k" -> SetK(e.v, e.r)
    [] e.e = "set_width" -> SetWidth(e.v, e.r)
    [] e.e = "set_rho" -> SetRho(e.v, e.r)
    [] e.e = "set_rho_inf" -> SetRho(-1, e.r)
    [] e.e = "set_rho_min" -> SetRhoMin(e.v, e.r)
    [] e.e = "set_rho_rel" -> SetRhoRel(e.v, e.r)
    [] e.e = "set_rho_pct" -> SetRhoPct(e.v, e.r)
    [] e.e = "set_rho_min_pct" -> SetRhoMinPct(e.v, e.r)
    [] e.e = "oracle" -> LoadOracle(e.scores, e.r)
    [] e.e = "set_parser" -> SetParser(e.r)
    [] e.e = "get" -> Get(e)
    [] e.e = "search" -> Search(e.id, e.w, e.r)
    [] e.e = "tsearch" -> e.conflicts = 0 /\ ThreadedSearch(e.threads, e.qs, e.r)    \* workers share nothing they write but the list
Init == EngineInit /\ i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ Step(Trace[i])
Spec == Init /\ [][Next]_<<evars, i>>
TraceView == <<i, k, rho, rhoMin, rel, oracle, width, loaded.version>>
Accepted == PrintT(<<"TRACE_DIAMETER", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
