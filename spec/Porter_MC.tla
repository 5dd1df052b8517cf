---------------------------- MODULE Porter_MC ----------------------------
(* The stemmer on every short word over a few letters, and on the examples of the paper that defines it. *)
EXTENDS Porter, Json
CONSTANTS Alphabet, Longest
Examples == <<<<<<99, 97, 114, 101, 115, 115, 101, 115>>, <<99, 97, 114, 101, 115, 115>>>>, <<<<112, 111, 110, 105, 101, 115>>, <<112, 111, 110, 105>>>>, <<<<116, 105, 101, 115>>, <<116, 105>>>>, <<<<99, 97, 114, 101, 115, 115>>, <<99, 97, 114, 101, 115, 115>>>>, <<<<99, 97, 116, 115>>, <<99, 97, 116>>>>, <<<<102, 101, 101, 100>>, <<102, 101, 101, 100>>>>, <<<<97, 103, 114, 101, 101, 100>>, <<97, 103, 114, 101>>>>, <<<<112, 108, 97, 115, 116, 101, 114, 101, 100>>, <<112, 108, 97, 115, 116, 101, 114>>>>, <<<<98, 108, 101, 100>>, <<98, 108, 101, 100>>>>, <<<<109, 111, 116, 111, 114, 105, 110, 103>>, <<109, 111, 116, 111, 114>>>>, <<<<115, 105, 110, 103>>, <<115, 105, 110, 103>>>>, <<<<99, 111, 110, 102, 108, 97, 116, 101, 100>>, <<99, 111, 110, 102, 108, 97, 116>>>>, <<<<116, 114, 111, 117, 98, 108, 101, 100>>, <<116, 114, 111, 117, 98, 108>>>>, <<<<115, 105, 122, 101, 100>>, <<115, 105, 122, 101>>>>, <<<<104, 111, 112, 112, 105, 110, 103>>, <<104, 111, 112>>>>, <<<<116, 97, 110, 110, 101, 100>>, <<116, 97, 110>>>>, <<<<102, 97, 108, 108, 105, 110, 103>>, <<102, 97, 108, 108>>>>, <<<<104, 105, 115, 115, 105, 110, 103>>, <<104, 105, 115, 115>>>>, <<<<102, 105, 122, 122, 101, 100>>, <<102, 105, 122, 122>>>>, <<<<102, 97, 105, 108, 105, 110, 103>>, <<102, 97, 105, 108>>>>, <<<<102, 105, 108, 105, 110, 103>>, <<102, 105, 108, 101>>>>, <<<<104, 97, 112, 112, 121>>, <<104, 97, 112, 112, 105>>>>, <<<<115, 107, 121>>, <<115, 107, 121>>>>, <<<<114, 101, 108, 97, 116, 105, 111, 110, 97, 108>>, <<114, 101, 108, 97, 116>>>>, <<<<99, 111, 110, 100, 105, 116, 105, 111, 110, 97, 108>>, <<99, 111, 110, 100, 105, 116>>>>, <<<<114, 97, 116, 105, 111, 110, 97, 108>>, <<114, 97, 116, 105, 111, 110>>>>, <<<<118, 97, 108, 101, 110, 99, 105>>, <<118, 97, 108, 101, 110, 99>>>>, <<<<104, 101, 115, 105, 116, 97, 110, 99, 105>>, <<104, 101, 115, 105, 116>>>>, <<<<100, 105, 103, 105, 116, 105, 122, 101, 114>>, <<100, 105, 103, 105, 116>>>>, <<<<99, 111, 110, 102, 111, 114, 109, 97, 98, 108, 105>>, <<99, 111, 110, 102, 111, 114, 109>>>>, <<<<114, 97, 100, 105, 99, 97, 108, 108, 105>>, <<114, 97, 100, 105, 99>>>>, <<<<100, 105, 102, 102, 101, 114, 101, 110, 116, 108, 105>>, <<100, 105, 102, 102, 101, 114>>>>, <<<<118, 105, 108, 101, 108, 105>>, <<118, 105, 108, 101>>>>, <<<<97, 110, 97, 108, 111, 103, 111, 117, 115, 108, 105>>, <<97, 110, 97, 108, 111, 103>>>>, <<<<118, 105, 101, 116, 110, 97, 109, 105, 122, 97, 116, 105, 111, 110>>, <<118, 105, 101, 116, 110, 97, 109>>>>, <<<<112, 114, 101, 100, 105, 99, 97, 116, 105, 111, 110>>, <<112, 114, 101, 100, 105, 99>>>>, <<<<111, 112, 101, 114, 97, 116, 111, 114>>, <<111, 112, 101, 114>>>>, <<<<102, 101, 117, 100, 97, 108, 105, 115, 109>>, <<102, 101, 117, 100, 97, 108>>>>, <<<<100, 101, 99, 105, 115, 105, 118, 101, 110, 101, 115, 115>>, <<100, 101, 99, 105, 115>>>>, <<<<104, 111, 112, 101, 102, 117, 108, 110, 101, 115, 115>>, <<104, 111, 112, 101>>>>, <<<<99, 97, 108, 108, 111, 117, 115, 110, 101, 115, 115>>, <<99, 97, 108, 108, 111, 117, 115>>>>, <<<<102, 111, 114, 109, 97, 108, 105, 116, 105>>, <<102, 111, 114, 109, 97, 108>>>>, <<<<115, 101, 110, 115, 105, 116, 105, 118, 105, 116, 105>>, <<115, 101, 110, 115, 105, 116>>>>, <<<<115, 101, 110, 115, 105, 98, 105, 108, 105, 116, 105>>, <<115, 101, 110, 115, 105, 98, 108>>>>, <<<<116, 114, 105, 112, 108, 105, 99, 97, 116, 101>>, <<116, 114, 105, 112, 108, 105, 99>>>>, <<<<102, 111, 114, 109, 97, 116, 105, 118, 101>>, <<102, 111, 114, 109>>>>, <<<<102, 111, 114, 109, 97, 108, 105, 122, 101>>, <<102, 111, 114, 109, 97, 108>>>>, <<<<101, 108, 101, 99, 116, 114, 105, 99, 105, 116, 105>>, <<101, 108, 101, 99, 116, 114>>>>, <<<<101, 108, 101, 99, 116, 114, 105, 99, 97, 108>>, <<101, 108, 101, 99, 116, 114>>>>, <<<<104, 111, 112, 101, 102, 117, 108>>, <<104, 111, 112, 101>>>>, <<<<103, 111, 111, 100, 110, 101, 115, 115>>, <<103, 111, 111, 100>>>>, <<<<114, 101, 118, 105, 118, 97, 108>>, <<114, 101, 118, 105, 118>>>>, <<<<97, 108, 108, 111, 119, 97, 110, 99, 101>>, <<97, 108, 108, 111, 119>>>>, <<<<105, 110, 102, 101, 114, 101, 110, 99, 101>>, <<105, 110, 102, 101, 114>>>>, <<<<97, 105, 114, 108, 105, 110, 101, 114>>, <<97, 105, 114, 108, 105, 110>>>>, <<<<103, 121, 114, 111, 115, 99, 111, 112, 105, 99>>, <<103, 121, 114, 111, 115, 99, 111, 112>>>>, <<<<97, 100, 106, 117, 115, 116, 97, 98, 108, 101>>, <<97, 100, 106, 117, 115, 116>>>>, <<<<100, 101, 102, 101, 110, 115, 105, 98, 108, 101>>, <<100, 101, 102, 101, 110, 115>>>>, <<<<105, 114, 114, 105, 116, 97, 110, 116>>, <<105, 114, 114, 105, 116>>>>, <<<<114, 101, 112, 108, 97, 99, 101, 109, 101, 110, 116>>, <<114, 101, 112, 108, 97, 99>>>>, <<<<97, 100, 106, 117, 115, 116, 109, 101, 110, 116>>, <<97, 100, 106, 117, 115, 116>>>>, <<<<100, 101, 112, 101, 110, 100, 101, 110, 116>>, <<100, 101, 112, 101, 110, 100>>>>, <<<<97, 100, 111, 112, 116, 105, 111, 110>>, <<97, 100, 111, 112, 116>>>>, <<<<99, 111, 109, 109, 117, 110, 105, 115, 109>>, <<99, 111, 109, 109, 117, 110>>>>, <<<<97, 99, 116, 105, 118, 97, 116, 101>>, <<97, 99, 116, 105, 118>>>>, <<<<97, 110, 103, 117, 108, 97, 114, 105, 116, 105>>, <<97, 110, 103, 117, 108, 97, 114>>>>, <<<<104, 111, 109, 111, 108, 111, 103, 111, 117, 115>>, <<104, 111, 109, 111, 108, 111, 103>>>>, <<<<101, 102, 102, 101, 99, 116, 105, 118, 101>>, <<101, 102, 102, 101, 99, 116>>>>, <<<<98, 111, 119, 100, 108, 101, 114, 105, 122, 101>>, <<98, 111, 119, 100, 108, 101, 114>>>>, <<<<112, 114, 111, 98, 97, 116, 101>>, <<112, 114, 111, 98, 97, 116>>>>, <<<<114, 97, 116, 101>>, <<114, 97, 116, 101>>>>, <<<<99, 101, 97, 115, 101>>, <<99, 101, 97, 115>>>>, <<<<99, 111, 110, 116, 114, 111, 108, 108>>, <<99, 111, 110, 116, 114, 111, 108>>>>, <<<<114, 111, 108, 108>>, <<114, 111, 108, 108>>>>, <<<<103, 101, 110, 101, 114, 97, 108, 105, 122, 97, 116, 105, 111, 110, 115>>, <<103, 101, 110, 101, 114>>>>, <<<<111, 115, 99, 105, 108, 108, 97, 116, 111, 114, 115>>, <<111, 115, 99, 105, 108>>>>>>
ASSUME \A k \in DOMAIN Examples : Stem(Examples[k][1]) = Examples[k][2]
Common == <<<<115>>, <<101, 115>>, <<101, 100>>, <<105, 110, 103>>, <<121>>, <<97, 116, 105, 111, 110, 97, 108>>, <<116, 105, 111, 110, 97, 108>>, <<101, 110, 99, 105>>, <<97, 110, 99, 105>>, <<105, 122, 101, 114>>, <<97, 98, 108, 105>>, <<97, 108, 108, 105>>, <<101, 110, 116, 108, 105>>, <<101, 108, 105>>, <<111, 117, 115, 108, 105>>, <<105, 122, 97, 116, 105, 111, 110>>, <<97, 116, 105, 111, 110>>, <<97, 116, 111, 114>>, <<97, 108, 105, 115, 109>>, <<105, 118, 101, 110, 101, 115, 115>>, <<102, 117, 108, 110, 101, 115, 115>>, <<111, 117, 115, 110, 101, 115, 115>>, <<97, 108, 105, 116, 105>>, <<105, 118, 105, 116, 105>>, <<98, 105, 108, 105, 116, 105>>, <<105, 99, 97, 116, 101>>, <<97, 116, 105, 118, 101>>, <<97, 108, 105, 122, 101>>, <<105, 99, 105, 116, 105>>, <<105, 99, 97, 108>>, <<102, 117, 108>>, <<110, 101, 115, 115>>, <<97, 108>>, <<97, 110, 99, 101>>, <<101, 110, 99, 101>>, <<101, 114>>, <<105, 99>>, <<97, 98, 108, 101>>, <<105, 98, 108, 101>>, <<97, 110, 116>>, <<101, 109, 101, 110, 116>>, <<109, 101, 110, 116>>, <<101, 110, 116>>, <<115, 105, 111, 110>>, <<116, 105, 111, 110>>, <<111, 117>>, <<105, 115, 109>>, <<97, 116, 101>>, <<105, 116, 105>>, <<111, 117, 115>>, <<105, 118, 101>>, <<105, 122, 101>>, <<101>>, <<108, 108>>, <<115, 115, 101, 115>>, <<105, 101, 115>>, <<115, 115>>, <<101, 101, 100>>, <<97, 116>>, <<98, 108>>, <<105, 122>>>>
VARIABLE w
Init == w = <<>>
Next == Len(w) < Longest /\ \E c \in Alphabet : w' = Append(w, c)
Spec == Init /\ [][Next]_w
\* only the end of a word changes, a word does not vanish unless it is "s", and what a rule puts back is a vowel, a consonant ending or a letter that was there
Shape == LET s == Stem(w) IN /\ Len(s) <= Len(w) /\ (Len(w) >= 3 => Len(s) >= 1)
                             /\ \A k \in 1..Len(s)-2 : s[k] = w[k]
\* behaviours: a stem of a few letters and suffixes of the rules, one after the other
GenNext == Len(w) < 3 * Longest /\ w' = w \o (IF Len(w) < RandomElement(1..6) THEN <<RandomElement(97..122)>> ELSE RandomElement({Common[k] : k \in DOMAIN Common}))
GenSpec == Init /\ [][GenNext]_w
Show == Len(w) < 3 \/ PrintT("@@" \o ToJson([word |-> w]))
===========================================================================
