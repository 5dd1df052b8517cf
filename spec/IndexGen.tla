------------------------------ MODULE IndexGen ------------------------------
(* Random behaviours of Index.tla (TLC -simulate) as call sequences.           *)
EXTENDS Index, Json, Randomization
CONSTANTS Depth, Flavour
VARIABLES hist
gvars == <<ivars, hist>>
Pick(S) == RandomElement(S)
Words == {"a", "b", "ab", "abc", "b9", "zz", "Z", "aa"}
Bytes_(w) == CASE w = "a" -> <<97>> [] w = "b" -> <<98>> [] w = "ab" -> <<97, 98>> [] w = "abc" -> <<97, 98, 99>> [] w = "b9" -> <<98, 57>>
               [] w = "zz" -> <<122, 122>> [] w = "Z" -> <<90>> [] w = "aa" -> <<97, 97>>
Op(o) == hist' = Append(hist, o)
Init == IndexInit /\ hist = <<>>
Build ==
  IF open
  THEN \E k \in {Pick({"tok", "tok", "tok2", "tok3", "tok4", "end"})} :
         IF k = "end" THEN \E l \in {Pick(1..40)} : End(l) /\ Op([op |-> "end", v |-> l])
         ELSE \E w \in {Pick(Words)} : \E c \in {Pick({1, 2, 3, 5, 40, 600, 1023, 1024, 1025, 3000})} : Tok(Bytes_(w), c) /\ Op([op |-> "tok", t |-> w, v |-> c])
  ELSE Begin(<<68, 48 + (Len(keys) % 10)>>) /\ Op([op |-> "begin", v |-> Len(keys) % 10])
Use ==
  \E k \in {Pick(CASE Flavour = "memory" -> {"iterate", "render", "impacts"}
                   [] Flavour = "files" -> {"write", "write1", "write2", "write3", "read", "read1", "read2", "read3"}
                   [] Flavour = "order" -> {"impacts", "quantize", "quantize1", "none", "bm25"}
                   [] OTHER -> {"integers", "forward"})} :
    CASE k \in {"iterate", "render", "impacts", "integers", "forward"} -> UNCHANGED ivars /\ Op([op |-> k])
      [] k \in {"quantize", "quantize1"} -> \E a, b, d \in {Pick(0..9)} : UNCHANGED ivars /\ Op([op |-> "quantize", a |-> a, b |-> b, d |-> d])
      [] k = "none" -> UNCHANGED ivars /\ Op([op |-> "quantize_none"])
      [] k = "bm25" -> UNCHANGED ivars /\ Op([op |-> "bm25", a |-> 90, b |-> 40])
      [] k \in {"write", "write1", "write2", "write3"} ->
           \E d \in {Pick({"one", "two", "three"})} : \E v \in {Pick({1, 2})} : \E c \in {Pick({"s", "s", "G", "g", "D"} \cup (IF v = 1 THEN {"q"} ELSE {}))} :
           \E a \in {IF c = "q" THEN 16 ELSE Pick({1, 4, 16})} :
             /\ files' = (d :> [ix |-> Content, version |-> v, codec |-> c, align |-> a]) @@ files
             /\ UNCHANGED <<keys, lens, post, open>>
             /\ Op([op |-> "write", dir |-> d, version |-> v, codec |-> c, align |-> a])
      [] OTHER ->
           \E d \in {Pick({"one", "two", "three"})} : UNCHANGED ivars
             /\ Op([op |-> "read", dir |-> d, version |-> IF d \in DOMAIN files THEN files[d].version ELSE 1])
Again == New /\ Op([op |-> "new"])
Next == IF post = <<>> \/ open \/ keys = <<>> THEN Build
        ELSE \E k \in {Pick(1..20)} : IF k <= 9 THEN Build ELSE IF k < 20 THEN Use ELSE Again
Spec == Init /\ [][Next]_gvars
Emit == IF Len(hist) = Depth THEN PrintT("@@" \o ToJson(hist)) ELSE TRUE
Bound == Len(hist) <= Depth
=============================================================================
