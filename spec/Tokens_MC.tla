---------------------------- MODULE Tokens_MC ----------------------------
(* Every short text over a few pieces, tokenised: what must hold of any tokeniser, and texts to replay. *)
EXTENDS Tokens, Json
CONSTANTS Use, Longest_
Piece == << <<97>>, <<90>>, <<49>>, <<32>>, <<60>>, <<62>>, <<47>>, <<33>>, <<45, 45>>, <<34>>, <<63>>, <<195, 137>>, <<226, 145, 160>>, <<195>>, <<194, 160>>, <<91>>, <<93, 93>>,
            <<10>>, <<65, 67, 71>>, <<67, 68, 65, 84, 65, 91>>, <<39>>, <<225, 186, 158>>, <<240, 157, 159, 152>>, <<120>>, <<58>>, <<46>> >>
\* e acute, circled one, no break space, replacement character, capital sharp s, a mathematical digit zero
Classes == << <<65533, 8 + 16, <<>> >>, <<201, 1 + 8 + 16, <<101>> >>, <<9312, 2, <<49>> >>, <<160, 4, <<>> >>, <<7838, 1 + 8 + 16, <<115, 115>> >>, <<120792, 2 + 8 + 16, <<48>> >> >>
VARIABLES text, did
vars == <<text, did>>
Init == text = <<>> /\ did = <<>>
Next == Len(did) < Longest_ /\ \E k \in Use : did' = Append(did, k) /\ text' = text \o Piece[k]
Spec == Init /\ [][Next]_vars
RECURSIVE Spans(_)
Spans(i) == LET k == DocToken(text, Classes, i) IN IF k.type = 11 THEN <<>> ELSE <<[from |-> SkipSpace(text, Classes, i), to |-> k.next, type |-> k.type, lex |-> k.lex]>> \o Spans(k.next)
\* tokens come in order, none is empty of text, words are maximal, and nothing but white space is between them
Sound == LET s == Spans(1) IN
  /\ \A k \in DOMAIN s : s[k].to > s[k].from
  /\ \A k \in 1..Len(s)-1 : /\ s[k + 1].from >= s[k].to
                            /\ \A j \in 0..1 : s[k].type = j /\ s[k + 1].type = j => s[k + 1].from > s[k].to
  /\ \A k \in DOMAIN s : s[k].type \in {0, 1} => s[k].to <= Len(text) + 1
  /\ (\A k \in DOMAIN text : text[k] # 60) => \A i \in DOMAIN text : text[i] \in UpperA \cup LowerA \cup DigitA => \E k \in DOMAIN s : s[k].type \in {0, 1} /\ i \in s[k].from..s[k].to-1
\* the words of a text without markup are the words of the same query
SameWords == (\A k \in DOMAIN text : text[k] # 60) =>
  WordsFrom(text, Classes, 1) = [n \in DOMAIN SelectSeq(DocTokens(text, Classes), LAMBDA x : x[1] < 2) |-> SelectSeq(DocTokens(text, Classes), LAMBDA x : x[1] < 2)[n][2]]
GenNext == Len(did) < Longest_ /\ \E k \in {RandomElement(Use)} : did' = Append(did, k) /\ text' = text \o Piece[k]
GenSpec == Init /\ [][GenNext]_vars
Show == Len(did) \notin {4, 8, 14} \/ PrintT("@@" \o ToJson([text |-> text]))
===========================================================================
