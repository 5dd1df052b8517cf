---------------------------------- MODULE Porter ----------------------------------
(* Porter's suffix stripper (Program, 1980) as this system defines it: a 'y' is a vowel unless it follows a, e, i, o or u
   (so also at the start of a word), and the "consonant, vowel, consonant" of *o may lack its first consonant.
   Words are sequences of bytes. *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
Aeiou == {97, 101, 105, 111, 117}
Y == 121
Vowel(w, i) == w[i] \in Aeiou \/ (w[i] = Y /\ (i = 1 \/ w[i-1] \notin Aeiou))
HasVowel(w) == \E i \in DOMAIN w : Vowel(w, i)
\* m in [C](VC)^m[V]: how often a vowel is followed by a consonant
M(w) == Cardinality({i \in 1..Len(w)-1 : Vowel(w, i) /\ ~Vowel(w, i + 1)})
Ends(w, s) == Len(w) >= Len(s) /\ SubSeq(w, Len(w) - Len(s) + 1, Len(w)) = s
Off(w, n) == SubSeq(w, 1, Len(w) - n)
\* *o: ends consonant, vowel, consonant, the last not w, x or y
O(w) == LET n == Len(w) IN /\ n >= 2 /\ w[n] \notin Aeiou \cup {119, 120, Y} /\ Vowel(w, n - 1) /\ (n = 2 \/ ~Vowel(w, n - 2))

\* the rules of a step: <<suffix, what it becomes, m of what stands before it must exceed this, is the suffix decisive anyway>>; the first that fits decides
Rules(w, rules) ==
  LET fit == {k \in DOMAIN rules : Ends(w, rules[k][1]) /\ (rules[k][4] \/ M(Off(w, Len(rules[k][1]))) > rules[k][3])}
      k == CHOOSE k \in fit : \A o \in fit : k <= o
      r == rules[k]
  IN IF fit = {} \/ M(Off(w, Len(r[1]))) <= r[3] THEN w ELSE Off(w, Len(r[1])) \o r[2]
Two == <<
  <<<<97, 116, 105, 111, 110, 97, 108>>, <<97, 116, 101>>, 0, FALSE>>   ,
  <<<<116, 105, 111, 110, 97, 108>>, <<116, 105, 111, 110>>, 0, FALSE>>   ,
  <<<<101, 110, 99, 105>>, <<101, 110, 99, 101>>, 0, FALSE>>   ,
  <<<<97, 110, 99, 105>>, <<97, 110, 99, 101>>, 0, FALSE>>   ,
  <<<<105, 122, 101, 114>>, <<105, 122, 101>>, 0, FALSE>>   ,
  <<<<97, 98, 108, 105>>, <<97, 98, 108, 101>>, 0, FALSE>>   ,
  <<<<97, 108, 108, 105>>, <<97, 108>>, 0, FALSE>>   ,
  <<<<101, 110, 116, 108, 105>>, <<101, 110, 116>>, 0, FALSE>>   ,
  <<<<101, 108, 105>>, <<101>>, 0, FALSE>>   ,
  <<<<111, 117, 115, 108, 105>>, <<111, 117, 115>>, 0, FALSE>>   ,
  <<<<105, 122, 97, 116, 105, 111, 110>>, <<105, 122, 101>>, 0, TRUE>>   ,
  <<<<97, 116, 105, 111, 110>>, <<97, 116, 101>>, 0, FALSE>>   ,
  <<<<97, 116, 111, 114>>, <<97, 116, 101>>, 0, FALSE>>   ,
  <<<<97, 108, 105, 115, 109>>, <<97, 108>>, 0, FALSE>>   ,
  <<<<105, 118, 101, 110, 101, 115, 115>>, <<105, 118, 101>>, 0, FALSE>>   ,
  <<<<102, 117, 108, 110, 101, 115, 115>>, <<102, 117, 108>>, 0, FALSE>>   ,
  <<<<111, 117, 115, 110, 101, 115, 115>>, <<111, 117, 115>>, 0, FALSE>>   ,
  <<<<97, 108, 105, 116, 105>>, <<97, 108>>, 0, FALSE>>   ,
  <<<<105, 118, 105, 116, 105>>, <<105, 118, 101>>, 0, FALSE>>   ,
  <<<<98, 105, 108, 105, 116, 105>>, <<98, 108, 101>>, 0, FALSE>>    >>

Three == <<
  <<<<105, 99, 97, 116, 101>>, <<105, 99>>, 0, FALSE>>   ,
  <<<<97, 116, 105, 118, 101>>, <<>>, 0, FALSE>>   ,
  <<<<97, 108, 105, 122, 101>>, <<97, 108>>, 0, FALSE>>   ,
  <<<<105, 99, 105, 116, 105>>, <<105, 99>>, 0, FALSE>>   ,
  <<<<105, 99, 97, 108>>, <<105, 99>>, 0, FALSE>>   ,
  <<<<102, 117, 108>>, <<>>, 0, FALSE>>   ,
  <<<<110, 101, 115, 115>>, <<>>, 0, FALSE>>    >>

Four == <<
  <<<<97, 108>>, <<>>, 1, FALSE>>   ,
  <<<<97, 110, 99, 101>>, <<>>, 1, FALSE>>   ,
  <<<<101, 110, 99, 101>>, <<>>, 1, FALSE>>   ,
  <<<<101, 114>>, <<>>, 1, FALSE>>   ,
  <<<<105, 99>>, <<>>, 1, FALSE>>   ,
  <<<<97, 98, 108, 101>>, <<>>, 1, FALSE>>   ,
  <<<<105, 98, 108, 101>>, <<>>, 1, FALSE>>   ,
  <<<<97, 110, 116>>, <<>>, 1, FALSE>>   ,
  <<<<101, 109, 101, 110, 116>>, <<>>, 1, TRUE>>   ,
  <<<<109, 101, 110, 116>>, <<>>, 1, TRUE>>   ,
  <<<<101, 110, 116>>, <<>>, 1, FALSE>>   ,
  <<<<111, 117>>, <<>>, 1, FALSE>>   ,
  <<<<105, 115, 109>>, <<>>, 1, FALSE>>   ,
  <<<<97, 116, 101>>, <<>>, 1, FALSE>>   ,
  <<<<105, 116, 105>>, <<>>, 1, FALSE>>   ,
  <<<<111, 117, 115>>, <<>>, 1, FALSE>>   ,
  <<<<105, 118, 101>>, <<>>, 1, FALSE>>   ,
  <<<<105, 122, 101>>, <<>>, 1, FALSE>>    >>

Ses == <<115, 115, 101, 115>>
Ies == <<105, 101, 115>>
Ss == <<115, 115>>
Eed == <<101, 101, 100>>
Ed == <<101, 100>>
Ing == <<105, 110, 103>>
Step1a(w) == IF Ends(w, Ses) THEN Off(w, 2) ELSE IF Ends(w, Ies) THEN Off(w, 2) ELSE IF Ends(w, Ss) THEN w ELSE IF Ends(w, <<115>>) THEN Off(w, 1) ELSE w
\* after -ed or -ing went
Tidy(w) == LET n == Len(w) IN
  IF Ends(w, <<97, 116>>) \/ Ends(w, <<98, 108>>) \/ Ends(w, <<105, 122>>) THEN Append(w, 101)
  ELSE IF n >= 2 /\ w[n] = w[n-1] THEN (IF w[n] \in Aeiou \cup {Y, 108, 115, 122} THEN w ELSE Off(w, 1))
  ELSE IF M(w) = 1 /\ O(w) THEN Append(w, 101) ELSE w
Step1b(w) == IF Ends(w, Eed) THEN (IF M(Off(w, 3)) > 0 THEN Off(w, 1) ELSE w)
             ELSE IF Ends(w, Ed) THEN (IF HasVowel(Off(w, 2)) THEN Tidy(Off(w, 2)) ELSE w)
             ELSE IF Ends(w, Ing) THEN (IF HasVowel(Off(w, 3)) THEN Tidy(Off(w, 3)) ELSE w)
             ELSE w
Step1c(w) == IF Ends(w, <<Y>>) /\ HasVowel(Off(w, 1)) THEN Append(Off(w, 1), 105) ELSE w
\* -sion and -tion lose their -ion, which is no rule of the table because the s or t counts as part of what stands before it
Ion(w) == (Ends(w, <<115, 105, 111, 110>>) \/ Ends(w, <<116, 105, 111, 110>>)) /\ M(Off(w, 3)) > 1
Step4(w) == LET done == Rules(w, Four) IN IF done # w THEN done ELSE IF Ion(w) THEN Off(w, 3) ELSE w
Step5(w) == LET a == Off(w, 1)
                e == IF Ends(w, <<101>>) /\ (M(a) > 1 \/ (M(a) = 1 /\ ~O(a))) THEN a ELSE w
            IN IF Ends(e, <<108, 108>>) /\ M(Off(e, 1)) > 1 THEN Off(e, 1) ELSE e
Stem(w) == Step5(Step4(Rules(Rules(Step1c(Step1b(Step1a(w))), Two), Three)))
===================================================================================
