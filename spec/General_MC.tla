----------------------------- MODULE General_MC -----------------------------
(* A run-length compressor with an end mark, one object used again and again   *)
(* for sources of any shape, rooms of any size, pieces cut short and pieces    *)
(* changed: what General asks of a compressor can be met, and met pieces hold  *)
(* what was put in them.  Its histories are run on the real compressors.       *)
EXTENDS General, Integers, SequencesExt, FiniteSets, TLC, Json
CONSTANTS Symbols, MaxLen, MaxSteps, Emit
VARIABLES pieces, last, history
vars == <<pieces, last, history>>
Sources == UNION {[1..k -> Symbols] : k \in 0..MaxLen}
\* runs <<symbol, times>>, two bytes each, then one byte that ends the piece
Runs(s) == FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)][1] = x THEN [a EXCEPT ![Len(a)] = <<x, @[2] + 1>>] ELSE Append(a, <<x, 1>>), <<>>, s)
Piece(s) == LET r == Runs(s) IN [k \in 1..(2 * Len(r) + 1) |-> IF k = 2 * Len(r) + 1 THEN 0 ELSE r[(k + 1) \div 2][IF k % 2 = 1 THEN 1 ELSE 2]]
RECURSIVE Whole(_)
Whole(b) == IF b = <<>> THEN <<-1>> ELSE IF Head(b) = 0 THEN (IF Len(b) = 1 THEN <<>> ELSE <<-1>>)
            ELSE IF Len(b) < 2 THEN <<-1>> ELSE [k \in 1..b[2] |-> b[1]] \o Whole(SubSeq(b, 3, Len(b)))
Undo(b) == LET w == Whole(b) IN IF -1 \in {w[k] : k \in DOMAIN w} THEN [ok |-> FALSE, out |-> <<>>] ELSE [ok |-> TRUE, out |-> w]
Init == pieces = <<>> /\ last = [op |-> "none"] /\ history = <<>>
Encode(s, limit) ==
  LET p == Piece(s) IN LET got == IF Len(p) <= limit THEN Len(p) ELSE 0 IN
  /\ pieces' = (IF got > 0 THEN Append(pieces, [src |-> s, b |-> p]) ELSE pieces)
  /\ last' = [op |-> "encode", n |-> Len(s), limit |-> limit, got |-> got]
  /\ history' = (IF Emit THEN Append(history, [op |-> "encode", src |-> s, limit |-> limit, k |-> 0, cut |-> 0, hurt |-> FALSE]) ELSE history)
Decode(k, room, cut, hurt) ==
  LET p == pieces[k].b IN LET u == Undo(SubSeq(p, 1, Len(p) - cut)) IN
  /\ pieces' = pieces
  /\ last' = [op |-> "decode", n |-> Len(pieces[k].src), room |-> room, cut |-> cut, hurt |-> hurt,
              got |-> IF u.ok /\ Len(u.out) <= room THEN Len(u.out) ELSE 0, same |-> u.out = pieces[k].src]
  /\ history' = (IF Emit THEN Append(history, [op |-> "decode", src |-> <<>>, limit |-> room, k |-> k, cut |-> cut, hurt |-> hurt]) ELSE history)
Next == \/ \E s \in Sources : \E limit \in {0, 1, Len(s), 2 * MaxLen + 1, 2048} : Len(history) < MaxSteps /\ Len(pieces) < 2 /\ Encode(s, limit)
        \/ \E k \in DOMAIN pieces : \E room \in {Len(pieces[k].src), Len(pieces[k].src) + 1} \cup (IF pieces[k].src = <<>> THEN {} ELSE {Len(pieces[k].src) - 1, 0}) :
             \E cut \in 0..(Len(pieces[k].b) - 1) : Len(history) < MaxSteps /\ Decode(k, room, cut, FALSE)
\* one random step at a time, for long histories
GenNext == /\ Len(history) < MaxSteps
           /\ IF pieces = <<>> \/ (Len(pieces) < 6 /\ RandomElement(1..3) = 1)
              THEN \E s \in {[j \in 1..RandomElement(1..MaxLen) |-> RandomElement(Symbols)]} : \E limit \in {RandomElement({0, 1, 2, Len(s), 2 * Len(s), 2048, 4096})} : Encode(s, limit)
              ELSE \E k \in {RandomElement(DOMAIN pieces)} : \E d \in {RandomElement({-2, -1, 0, 0, 1, 20})} : \E x \in {RandomElement(0..7)} :
                     Decode(k, IF Len(pieces[k].src) + d < 0 THEN 0 ELSE Len(pieces[k].src) + d, IF x = 0 THEN RandomElement(0..(Len(pieces[k].b) - 1)) ELSE 0, x = 1)
Owed == CASE last.op = "encode" -> EncodeOk(last.n, last.limit, last.got, 0)
          [] last.op = "decode" -> (last.n = 0 \/ DecodeOk(last.n, last.room, last.cut, last.hurt, last.got, last.same, 0))
          [] OTHER -> TRUE
Lossless == \A k \in DOMAIN pieces : Undo(pieces[k].b) = [ok |-> TRUE, out |-> pieces[k].src]
Spec == Init /\ [][Next]_vars
GenSpec == Init /\ [][GenNext]_vars
Done == Len(history) = MaxSteps => (IF Emit THEN PrintT("@@" \o ToJson(history)) ELSE TRUE)
=============================================================================
