------------------------------ MODULE EngineGen ------------------------------
(* Random behaviours of Engine.tla (TLC -simulate), printed as call sequences  *)
(* for the driver.  Searches' answers are left to the real engine; every other *)
(* call's outcome follows the specification.                                   *)
EXTENDS Engine, Json, Randomization
CONSTANTS Depth, NDocs, TermNames, MaxImp, Flavour
VARIABLES hist, qid
gvars == <<evars, hist, qid>>
Pick(S) == RandomElement(S)
Keys == [i \in 1..NDocs |-> "D" \o ToString(i)]
\* one random term: each document has the term or not, with a random impact
RandomFreqs(dens) == {TLCEval([d \in 1..NDocs |-> IF Pick(1..100) <= dens THEN Pick(1..MaxImp) ELSE 0])}
PostingsOf(f) ==
  LET chosen == SelectSeq([d \in 1..NDocs |-> <<d, f[d]>>], LAMBDA x : x[2] > 0)
  IN IF chosen = <<>> THEN <<<<1, 1>>>> ELSE chosen
Op(o) == hist' = Append(hist, o)
Init == EngineInit /\ hist = <<>> /\ qid = 1
Settled(o) == Op(o) /\ qid' = qid
WordsOf(n) == TLCEval([i \in 1..n |-> Pick(IF i > 0 THEN TermNames \cup {"zz"} ELSE {})])
Describe ==
  /\ def.keys = <<>> /\ DefineDocs(Keys) /\ Settled([op |-> "docs", keys |-> Keys])
AddTerm ==
  /\ def.keys # <<>> /\ DOMAIN def.terms # TermNames
  /\ \E t \in {Pick(TermNames \ DOMAIN def.terms)} : \E f \in RandomFreqs(Pick({20, 50, 80, 100})) :
        DefineTerm(t, PostingsOf(f)) /\ Settled([op |-> "term", t |-> t, p |-> PostingsOf(f)])
WriteIt ==
  /\ def.keys # <<>> /\ DOMAIN def.terms = TermNames /\ Cardinality(DOMAIN disk) < 2
  /\ \E c \in {Pick({"s", "G", "g", "D"} \cup (IF disk = <<>> THEN {"q"} ELSE {}))} :
     LET v == Cardinality(DOMAIN disk) + 1
         d == IF v = 1 THEN "one" ELSE "two"
     IN Build(d, v, c) /\ Settled([op |-> "build", dir |-> d, version |-> v, codec |-> c])
Ready == Cardinality(DOMAIN disk) = 2
Call ==
  /\ Ready
  /\ \E kind \in {Pick(IF Flavour = "life"
                      THEN {"new", "load", "load2", "k", "width", "rho", "rhomin", "rel", "pct", "minpct", "oracle", "get", "search", "search2", "tsearch"}
                      ELSE {"k", "load", "rho", "rhomin", "rel", "oracle", "search", "search2", "search3", "search4", "tsearch", "new"})} :
        CASE kind = "new" -> NewEngine /\ Settled([op |-> "new"])
          [] kind \in {"load", "load2"} ->
               \E a \in {Pick({<<1, "one">>, <<2, "two">>, <<1, "one">>, <<2, "two">>, <<1, "nowhere">>, <<3, "one">>, <<2, "nowhere">>})} :
               \E r \in {OK, BadVersion, Fail, AlreadyLoaded} : r # (IF width > MaxUsableWidth THEN OK ELSE -9)
                     /\ Load(a[1], a[2], r) /\ Settled([op |-> "load", version |-> a[1], dir |-> a[2]])
          [] kind = "k" -> \E v \in {Pick({1, 2, 3, 5, 10, 1000, 1001, 0})} : \E r \in {OK, TooLarge, AlreadyLoaded} : SetK(v, r) /\ Settled([op |-> "k", v |-> v])
          [] kind = "width" -> \E v \in {Pick({0, 1, 2, 3, 7, 30, 33})} : \E r \in {OK, TooLarge, AlreadyLoaded} : SetWidth(v, r) /\ Settled([op |-> "width", v |-> v])
          [] kind = "rho" -> \E v \in {Pick({-1, 0, 1, 2, 3, 5, 8, 13})} : SetRho(v, OK) /\ Settled([op |-> "rho", v |-> v])
          [] kind = "rhomin" -> \E v \in {Pick({0, 0, 1, 3, 6, 100})} : SetRhoMin(v, OK) /\ Settled([op |-> "rho_min", v |-> v])
          [] kind = "rel" -> \E v \in {Pick({100, 100, 0, 10, 25, 50, 75, 200})} : SetRhoRel(v, OK) /\ Settled([op |-> "rho_rel", v |-> v])
          [] kind = "pct" -> \E v \in {Pick({0, 10, 33, 50, 100, 250})} : \E r \in {OK, NoIndexError} : SetRhoPct(v, r) /\ Settled([op |-> "rho_pct", v |-> v])
          [] kind = "minpct" -> \E v \in {Pick({0, 10, 50, 100})} : \E r \in {OK, NoIndexError} : SetRhoMinPct(v, r) /\ Settled([op |-> "rho_min_pct", v |-> v])
          [] kind = "oracle" ->
               \E ps \in {TLCEval([i \in 1..Pick(0..4) |-> <<ToString(Pick(1..(qid + 3))), Pick({0, 1, 2, 3, 4, 6, 9, 255, 256, 300})>>])} :
               LoadOracle(ps, OK) /\ Settled([op |-> "oracle", scores |-> ps])
          [] kind = "get" -> UNCHANGED evars /\ Settled([op |-> "get"])
          [] kind \in {"search", "search2", "search3", "search4"} ->
               \E id \in {Pick({qid, Pick(1..qid)})} :
               \E ws \in {WordsOf(Pick(1..4))} :
               UNCHANGED evars /\ Op([op |-> "search", id |-> ToString(id), w |-> ws]) /\ qid' = qid + 1
          [] kind = "tsearch" ->
               \E n \in {Pick(0..4)} :
               \E th \in {Pick({1, 2, 3})} :
               \E qs \in {TLCEval([i \in 1..n |-> [id |-> ToString(qid + i), w |-> WordsOf(Pick(IF i > 0 THEN 1..3 ELSE {}))]])} :
               /\ Op([op |-> "tsearch", threads |-> th, qs |-> qs])
               /\ qid' = qid + n /\ UNCHANGED evars
Next == Describe \/ AddTerm \/ WriteIt \/ Call
Spec == Init /\ [][Next]_gvars
Emit == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
Bound == Len(hist) <= Depth
=============================================================================
