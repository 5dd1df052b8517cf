---------------------------- MODULE EngineLife_MC ----------------------------
(* The engine's life on its own: every order of configuration, load and query *)
(* calls (with every outcome the specification admits) over two indexes.      *)
EXTENDS Engine
CONSTANTS MaxCalls
VARIABLES last, calls
lvars == <<evars, last, calls>>
I1 == [keys |-> <<"a", "b", "c">>, terms |-> <<>>, version |-> 1, codec |-> "s"]
I2 == [keys |-> <<"a">>, terms |-> <<>>, version |-> 2, codec |-> "q"]
Init == EngineInit /\ last = [call |-> "", r |-> OK] /\ calls = 0
Results == {OK, BadVersion, Fail, TooLarge, AlreadyLoaded, NoIndexError}
Note(c, r) == last' = [call |-> c, r |-> r] /\ calls' = calls + 1
WriteBoth == disk = <<>> /\ disk' = ("one" :> I1) @@ ("two" :> I2) /\ UNCHANGED <<def, loaded, k, rho, rhoMin, rel, oracle, width, memo>> /\ Note("build", OK)
Call == \E r \in Results :
  \/ \E v \in {1, 2, 3} : \E d \in {"one", "two", "none"} : Load(v, d, r) /\ Note("load", r)
  \/ \E v \in {0, 7, 1001} : SetK(v, r) /\ Note("k", r)
  \/ \E v \in {2, 30, 33} : SetWidth(v, r) /\ Note("width", r)
  \/ \E v \in {-1, 4} : SetRho(v, r) /\ Note("rho", r)
  \/ \E v \in {3} : SetRhoMin(v, r) /\ Note("rhomin", r)
  \/ \E v \in {50, 100} : SetRhoRel(v, r) /\ Note("rel", r)
  \/ \E v \in {50, 120} : SetRhoPct(v, r) /\ Note("pct", r)
  \/ \E v \in {50} : SetRhoMinPct(v, r) /\ Note("minpct", r)
  \/ \E p \in {<<>>, <<<<"1", 3>>, <<"1", 4>>>>} : LoadOracle(p, r) /\ Note("oracle", r)
Next == calls < MaxCalls /\ (WriteBoth \/ Call \/ (NewEngine /\ Note("new", OK)))
Spec == Init /\ [][Next]_lvars
Limits == k <= MaxTopK /\ width <= MaxWidth
LoadedIsOnDisk == IsLoaded => loaded \in {disk[d] : d \in DOMAIN disk}
\* what the index depends on never moves under it; only a new engine gives it up
Frozen == [][(IsLoaded /\ last'.call # "new") => (loaded' = loaded /\ k' = k /\ width' = width)]_lvars
\* a refused call has no effect
RefusedHasNoEffect == [][last'.r # OK => UNCHANGED evars]_lvars
\* a load that succeeds is the only way to have an index, and it happens once
OneLoad == [][(~IsLoaded /\ IsLoaded') => (last'.call = "load" /\ last'.r = OK)]_lvars
LastScoreWins == "1" \in DOMAIN oracle => oracle["1"] = 4
PercentNeedsIndex == last.call = "pct" => (last.r = OK <=> IsLoaded)
=============================================================================
