------------------------------- MODULE Bits_MC -------------------------------
(* Bit strings held in whole words, and streams held in a word of their own     *)
(* until it is full, beside the sets and sequences they stand for.              *)
EXTENDS Bits, Json
CONSTANTS W, Longest, Steps, Room
VARIABLES real, abs, did, bits, out, word, held, failed
vars == <<real, abs, did, bits, out, word, held, failed>>
\* a stored string: its length, its words, and the set of stored bits that are one (all stored words count)
None == [n |-> 0, words |-> 0, on |-> {}]
Init == /\ real = <<None, None, None, None>> /\ abs = <<Blank, Blank, Blank, Blank>> /\ did = <<>>
        /\ bits = <<>> /\ out = <<>> /\ word = <<>> /\ held = 0 /\ failed = FALSE
Words(n) == (n + W) \div W
Size(s, n) == [n |-> n, words |-> Words(n), on |-> {p \in s.on : p < n}]
Stored(s) == 0..(s.words * W - 1)
Step(o) ==
  /\ abs' = Apply(abs, o) /\ did' = Append(did, o)
  /\ LET x == o[2] + 1
         s == real[x] IN
     real' = CASE o[1] = "n" -> [real EXCEPT ![x] = Size(s, o[3])]
               [] o[1] = "+" -> IF o[3] < s.n THEN [real EXCEPT ![x].on = @ \union {o[3]}] ELSE real
               [] o[1] = "-" -> IF o[3] < s.n THEN [real EXCEPT ![x].on = @ \ {o[3]}] ELSE real
               [] o[1] = "0" -> [real EXCEPT ![x].on = {}]
               [] o[1] = "1" -> [real EXCEPT ![x].on = Stored(s) \ {p \in Stored(s) : p >= s.n}]
               [] OTHER -> LET long == Big(real[o[3] + 1].n, real[o[4] + 1].n)
                               grown == [y \in 1..4 |-> IF y \in {x, o[3] + 1, o[4] + 1} THEN Size(real[y], long) ELSE real[y]] IN
                           [grown EXCEPT ![x].on = Combine(o[1], grown[o[3] + 1].on, grown[o[4] + 1].on) \intersect Stored(grown[o[3] + 1])]
  /\ UNCHANGED <<bits, out, word, held, failed>>
\* streams
Bit(b) == /\ bits' = Append(bits, b)
          /\ LET w == Append(word, b) IN
             IF Len(w) = W
             THEN IF held < Room THEN out' = out \o w /\ held' = held + 1 /\ word' = <<>> /\ UNCHANGED failed
                  ELSE failed' = TRUE /\ word' = <<>> /\ UNCHANGED <<out, held>>
             ELSE word' = w /\ UNCHANGED <<out, held, failed>>
          /\ UNCHANGED <<real, abs, did>>
Strings == \E s \in 0..1, p \in 0..Longest : Step(<<"n", s, p, 0, 0>>) \/ Step(<<"+", s, p, 0, 0>>) \/ Step(<<"-", s, p, 0, 0>>)
Both == \E s \in 0..1 : Step(<<"0", s, 0, 0, 0>>) \/ Step(<<"1", s, 0, 0, 0>>)
Mix == \E a \in 0..2, b \in 0..1, c \in 0..1 : \E o \in {"o", "x", "a", "d"} : Step(<<o, a, b, c, 0>>)
Streams == Len(bits) < (Room + 1) * W + 1 /\ did = <<>> /\ \E b \in 0..1 : Bit(b)
Next == (Len(did) < Steps /\ bits = <<>> /\ (Strings \/ Both \/ Mix)) \/ Streams
Spec == Init /\ [][Next]_vars
Same == \A s \in 1..4 : real[s].n = abs[s].n /\ real[s].on = abs[s].on
\* ending the stream writes what is held, if anything is, and says how many bytes there are (W bits to a byte here)
Ended == LET ok == ~ failed /\ (word = <<>> \/ held < Room) IN
         IF Len(bits) <= Room * W THEN ok /\ out \o word = bits ELSE ~ ok
View == <<real, abs, Len(did), bits, out, word, held, failed>>
GenNext == /\ Len(did) < Steps
           /\ LET s == RandomElement(0..1)
                  p == RandomElement(0..Longest)
                  k == RandomElement(1..9) IN
              IF k <= 2 THEN Step(<<"n", s, p, 0, 0>>) ELSE IF k <= 5 THEN Step(<<"+", s, p, 0, 0>>) ELSE IF k = 6 THEN Step(<<"-", s, p, 0, 0>>)
              ELSE IF k = 7 THEN Step(<<RandomElement({"0", "1", "1"}), s, 0, 0, 0>>)
              ELSE Step(<<RandomElement({"o", "x", "a", "d"}), RandomElement(0..2), s, RandomElement(0..1), 0>>)
GenSpec == Init /\ [][GenNext]_vars
Show == Len(did) < Steps \/ PrintT("@@" \o ToJson([did |-> did]))
=============================================================================
