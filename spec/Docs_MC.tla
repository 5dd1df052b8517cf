---------------------------- MODULE Docs_MC ----------------------------
(* The splitter of marked up documents as a machine: a buffer of a fixed size over a stream that arrives in pieces.
   Whatever the size, as long as it can hold what has to be held, it finds the documents the whole text holds. *)
EXTENDS Docs, Json
CONSTANTS Pieces, Sizes
Tags == [open |-> <<1, 2>>, close |-> <<1, 3, 2>>, key |-> <<1, 4>>, endkey |-> <<1, 3, 4>>]
Piece == <<Tags.open, Tags.close, Tags.key, Tags.endkey, <<32>>, <<1>>, <<7>> >>
VARIABLES text, size, fed, win, used, out, ended
vars == <<text, size, fed, win, used, out, ended>>
Texts == {FoldLeft(LAMBDA a, k : a \o Piece[k], <<>>, s) : s \in UNION {[1..n -> DOMAIN Piece] : n \in 0..Pieces}}
Start(t, s) == text = t /\ size = s /\ fed = 0 /\ win = <<>> /\ used = 0 /\ out = <<>> /\ ended = FALSE
Init == \E t \in Texts, s \in Sizes : Start(t, s)
\* keep the window from position `from` (counting from 1) and fill the buffer up
Least(a, b) == IF a < b THEN a ELSE b
Refill(from) == LET keep == SubSeq(win, from, Len(win)) IN keep \o SubSeq(text, fed + 1, Least(Len(text), fed + size - Len(keep)))
Fed(from) == Least(Len(text), fed + size - (Len(win) - from + 1))
Read ==
  /\ ~ended
  /\ LET s0 == Find(win, used + 1, Tags.open) IN
     \E a \in {IF s0 # 0 THEN [w |-> win, f |-> fed, s |-> s0] ELSE [w |-> Refill(used + 1), f |-> Fed(used + 1), s |-> Find(Refill(used + 1), 1, Tags.open)]} :
       IF a.s = 0 THEN /\ ended' = TRUE /\ win' = a.w /\ fed' = a.f /\ used' = 0 /\ UNCHANGED <<text, size, out>>
       ELSE LET e0 == Find(a.w, a.s, Tags.close)
                keep == SubSeq(a.w, a.s, Len(a.w))
                w2 == keep \o SubSeq(text, a.f + 1, Least(Len(text), a.f + size - Len(keep)))
                b == IF e0 # 0 THEN [w |-> a.w, f |-> a.f, s |-> a.s, e |-> e0]
                     ELSE [w |-> w2, f |-> Least(Len(text), a.f + size - Len(keep)), s |-> 1, e |-> Find(w2, 1, Tags.close)]
            IN /\ win' = b.w /\ fed' = b.f
               /\ IF b.e = 0 THEN ended' = TRUE /\ used' = 0 /\ UNCHANGED out
                  ELSE LET d == SubSeq(b.w, b.s, b.e + Len(Tags.close) - 1)
                       IN ended' = FALSE /\ used' = b.e + Len(Tags.close) - 1 /\ out' = Append(out, <<TagKey(Tags, d), d>>)
               /\ UNCHANGED <<text, size>>
Next == Read
Spec == Init /\ [][Next]_vars
\* nothing is returned that is not in the text, and with room enough nothing is missing
Whole == LET all == Tagged(Tags, text) IN
  /\ size >= TaggedNeed(Tags, text) => /\ Len(out) <= Len(all) /\ out = SubSeq(all, 1, Len(out))
                                       /\ ended => out = all
Fits == Len(win) <= size
\* behaviours: texts of many documents, piece by piece
GenInit == Start(<<>>, 1000)
GenNext == /\ Len(out) < 24
           /\ \E k \in {RandomElement({1, 1, 2, 2, 3, 4, 5, 6, 7, 7})} : out' = Append(out, k) /\ text' = text \o Piece[k]
           /\ UNCHANGED <<size, fed, win, used, ended>>
GenSpec == GenInit /\ [][GenNext]_vars
Show == Len(out) \notin {4, 9, 16, 24} \/ PrintT("@@" \o ToJson([pieces |-> out, documents |-> Len(Tagged(Tags, text))]))
=============================================================================
