------------------------------- MODULE Engine -------------------------------
(* The engine as its user sees it: indexes on disk, one engine object, its     *)
(* settings, and what each call answers.  One action per public call; the      *)
(* call's result is an argument that the action constrains.                    *)
EXTENDS SearchContract, SequencesExt

MaxTopK == 1000
MaxWidth == 32
MaxUsableWidth == 27
NoIndex == [keys |-> <<>>, terms |-> <<>>, version |-> 0, codec |-> ""]
OK == 0  BadVersion == 1  Fail == 2  TooLarge == 4  AlreadyLoaded == 5  NoIndexError == -1

CodecName(c) == CASE c = "s" -> "None" [] c = "q" -> "QMX JASS v1" [] c = "G" -> "Group Elias Gamma SIMD"
                  [] c = "g" -> "Group Elias Gamma SIMD with Variable Byte" [] c = "D" -> "Group Elias Delta SIMD" [] OTHER -> ""
CodecD(c) == IF c = "s" THEN 0 ELSE 1

VARIABLES def,      \* the index being described
          disk,     \* directory -> index written there
          loaded,   \* the index the engine holds (NoIndex: none)
          k, rho, rhoMin, rel, oracle, width,
          memo      \* answers this engine has already given: <<query, settings>> -> answer
evars == <<def, disk, loaded, k, rho, rhoMin, rel, oracle, width, memo>>

Fresh == /\ loaded' = NoIndex /\ k' = 10 /\ rho' = -1 /\ rhoMin' = 0 /\ rel' = 100 /\ oracle' = <<>> /\ width' = 0 /\ memo' = <<>>
EngineInit == /\ def = NoIndex /\ disk = <<>> /\ loaded = NoIndex /\ k = 10 /\ rho = -1 /\ rhoMin = 0 /\ rel = 100
              /\ oracle = <<>> /\ width = 0 /\ memo = <<>>
IsLoaded == loaded.version # 0

(* ---- describing and writing an index ---- *)
DefineDocs(keys) == def' = [NoIndex EXCEPT !.keys = keys] /\ UNCHANGED <<disk, loaded, k, rho, rhoMin, rel, oracle, width, memo>>
MaxStoredImpact == 1024
SegmentsOf(p) ==      \* p: sequence of <<document, frequency>>; frequencies are clamped into the impact range
  LET imp(i) == Min2(p[i][2], MaxStoredImpact)
  IN {LET D == {p[i][1] : i \in {j \in 1..Len(p) : imp(j) = m}} IN [imp |-> m, n |-> Cardinality(D), docs |-> D]
       : m \in {imp(i) : i \in 1..Len(p)}}
DefineTerm(t, p) == def' = [def EXCEPT !.terms = (t :> SegmentsOf(p)) @@ @] /\ UNCHANGED <<disk, loaded, k, rho, rhoMin, rel, oracle, width, memo>>
Build(dir, version, codec) ==
  /\ disk' = (dir :> [def EXCEPT !.version = version, !.codec = codec]) @@ disk
  /\ UNCHANGED <<def, loaded, k, rho, rhoMin, rel, oracle, width, memo>>

(* ---- the engine's life ---- *)
NewEngine == Fresh /\ UNCHANGED <<def, disk>>
Load(version, dir, r) ==
  /\ r \in (IF IsLoaded THEN {AlreadyLoaded} ELSE IF version \notin {1, 2} THEN {BadVersion}
            ELSE IF dir \notin DOMAIN disk THEN {Fail}
            ELSE IF width > MaxUsableWidth THEN {OK, Fail} ELSE {OK})      \* pages too wide to allocate
  /\ loaded' = (IF r = OK THEN disk[dir] ELSE loaded)
  /\ UNCHANGED <<def, disk, k, rho, rhoMin, rel, oracle, width, memo>>
SetK(v, r) ==
  /\ r = (IF IsLoaded THEN AlreadyLoaded ELSE IF v > MaxTopK THEN TooLarge ELSE OK)
  /\ k' = (IF r = OK THEN v ELSE k)
  /\ UNCHANGED <<def, disk, loaded, rho, rhoMin, rel, oracle, width, memo>>
SetWidth(v, r) ==
  /\ r = (IF IsLoaded THEN AlreadyLoaded ELSE IF v > MaxWidth THEN TooLarge ELSE OK)
  /\ width' = (IF r = OK THEN v ELSE width)
  /\ UNCHANGED <<def, disk, loaded, k, rho, rhoMin, rel, oracle, memo>>
SetRho(v, r) == r = OK /\ rho' = v /\ UNCHANGED <<def, disk, loaded, k, rhoMin, rel, oracle, width, memo>>
SetRhoMin(v, r) == r = OK /\ rhoMin' = v /\ UNCHANGED <<def, disk, loaded, k, rho, rel, oracle, width, memo>>
SetRhoRel(v, r) == r = OK /\ rel' = v /\ UNCHANGED <<def, disk, loaded, k, rho, rhoMin, oracle, width, memo>>
SetRhoPct(v, r) ==
  /\ r = (IF IsLoaded THEN OK ELSE NoIndexError)
  /\ rho' = (IF r = OK THEN (Len(loaded.keys) * v) \div 100 ELSE rho)
  /\ UNCHANGED <<def, disk, loaded, k, rhoMin, rel, oracle, width, memo>>
SetRhoMinPct(v, r) ==
  /\ r = (IF IsLoaded THEN OK ELSE NoIndexError)
  /\ rhoMin' = (IF r = OK THEN (Len(loaded.keys) * v) \div 100 ELSE rhoMin)
  /\ UNCHANGED <<def, disk, loaded, k, rho, rel, oracle, width, memo>>
LoadOracle(pairs, r) ==
  /\ r = OK
  /\ oracle' = [q \in {pairs[i][1] : i \in 1..Len(pairs)} |->
                  pairs[CHOOSE i \in 1..Len(pairs) : pairs[i][1] = q /\ \A j \in (i+1)..Len(pairs) : pairs[j][1] # q][2]]
  /\ UNCHANGED <<def, disk, loaded, k, rho, rhoMin, rel, width, memo>>
SetParser(r) == r = OK /\ UNCHANGED evars
Get(e) ==
  /\ e.docs = Len(loaded.keys) /\ e.k = k /\ e.maxk = MaxTopK /\ e.rho = rho
  /\ e.codec = CodecName(loaded.codec) /\ e.d = (IF IsLoaded THEN CodecD(loaded.codec) ELSE NoIndexError)
  /\ UNCHANGED evars

(* ---- searching ---- *)
Join(ws) == FoldLeft(LAMBDA a, b : IF a = "" THEN b ELSE a \o " " \o b, "", ws)
Budgets(w) ==      \* a relative budget is a share of this query's own postings (floating point may lose one)
  IF rel = 100 THEN {rho}
  ELSE LET p == TotalPostings(Segments(loaded, w)) * rel
       IN IF p % 100 = 0 /\ p > 0 THEN {p \div 100, p \div 100 - 1} ELSE {p \div 100}
OracleFor(id) == IF id \in DOMAIN oracle THEN oracle[id] ELSE 0

\* res = [id, q, pp, lines]; lines[i] = [q, k, n, s, d] with documents counted from 0 and ranks from 1
WellFormed(id, w, res) ==
  /\ res.id = id /\ res.q = Join(w)
  /\ \A i \in 1..Len(res.lines) :
        LET x == res.lines[i]
        IN /\ DOMAIN x = {"q", "k", "n", "s", "d"}
           /\ x.q = id /\ x.n = i /\ x.d \in 0..(Len(loaded.keys) - 1) /\ x.k = loaded.keys[x.d + 1]
SearchAnswer(id, w, res) ==
  /\ WellFormed(id, w, res)
  /\ LET r == [i \in 1..Len(res.lines) |-> [d |-> res.lines[i].d + 1, s |-> res.lines[i].s]]
     IN TRUE = \E b \in Budgets(w) :
          Explains(loaded, w, [k |-> k, o |-> Min2(OracleFor(id), MaxRsv), min |-> rhoMin, budget |-> b], r, res.pp)
Nothing(res) == res = [id |-> "", q |-> "", pp |-> 0, lines |-> <<>>]
\* the same question under the same settings has one answer, whatever was asked in between and by whichever worker
Key(id, w) == <<id, w, rho, rhoMin, rel, OracleFor(id)>>
Consistent(id, w, res) == IF Key(id, w) \in DOMAIN memo THEN memo[Key(id, w)] = res ELSE TRUE

Search(id, w, res) ==
  /\ IF IsLoaded THEN SearchAnswer(id, w, res) /\ Consistent(id, w, res) ELSE Nothing(res)
  /\ memo' = (IF IsLoaded THEN (Key(id, w) :> res) @@ memo ELSE memo)
  /\ UNCHANGED <<def, disk, loaded, k, rho, rhoMin, rel, oracle, width>>

\* qs: sequence of [id, w] with distinct ids; r: per worker, the results it produced
ThreadedSearch(threads, qs, r) ==
  /\ IF ~IsLoaded THEN r = <<>>
     ELSE /\ Len(r) = threads
          /\ LET slots == {<<t, i>> \in (1..Len(r)) \X (1..Len(qs)) : i <= Len(r[t])}
                 of(q) == {s \in slots : r[s[1]][s[2]].id = q.id}
             IN /\ \A t \in 1..Len(r) : Len(r[t]) <= Len(qs)
                /\ Cardinality(slots) = Len(qs)                       \* every query answered ...
                /\ \A i \in 1..Len(qs) :
                      \E s \in of(qs[i]) : /\ of(qs[i]) = {s}          \* ... exactly once ...
                                           /\ SearchAnswer(qs[i].id, qs[i].w, r[s[1]][s[2]])   \* ... correctly
                                           /\ Consistent(qs[i].id, qs[i].w, r[s[1]][s[2]])     \* ... and as before
  /\ UNCHANGED evars
=============================================================================
