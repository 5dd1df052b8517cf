---------------------------- MODULE Unicode_MC ----------------------------
(* Every byte sequence of a few lengths over the bytes at the edges of what a byte can promise, and every code point at an edge. *)
EXTENDS Unicode
CONSTANTS Bytes, Length
VARIABLES text
Init == text = <<>>
Next == Len(text) < Length /\ \E b \in Bytes : text' = Append(text, b)
Spec == Init /\ [][Next]_text
NoData == [cats |-> <<>>, props |-> <<>>, decomp |-> <<>>, fold |-> <<>>]
Edges == UNION {{e - 1, e, e + 1} : e \in {1, 127, 128, 2047, 2048, 55296, 57343, 65535, 65536, 262143, 262144, 1048576, 1114110}}
\* what is decoded is what was encoded, the code says how long it is, and it cannot be confused with what follows
RoundTrip == text = <<>> => \A c \in Edges : Decode(Encode(c)) = c /\ Taken(Encode(c)) = Len(Encode(c)) /\ \A n \in 1..(Len(Encode(c)) - 1) : Taken(SubSeq(Encode(c), 1, n)) = 0
Inside == Taken(text) <= Len(text) /\ Decode(text) \in 0..Top
\* a character is judged by its own bytes
Local == \A n \in 1..Len(text) : Taken(SubSeq(text, 1, n)) # 0 => Taken(text) = Taken(SubSeq(text, 1, n))
\* encoding what was decoded gives it back unless it was longer than it had to be or out of range
Shortest == Taken(text) = 0 \/ Encode(Decode(text)) = SubSeq(text, 1, Taken(text)) \/ Len(Encode(Decode(text))) < Taken(text) \/ Decode(text) = 65533
=============================================================================
