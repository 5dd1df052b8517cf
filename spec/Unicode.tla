---------------------------- MODULE Unicode ----------------------------
(* Character classes and normalisation as the Unicode database defines them, and UTF-8.
   A class is the sequence of the maximal ranges of code points that it consists of.  The database comes as
   [cats: ranges with their general category, props: named sets of ranges, decomp and fold: code point -> code points, sorted]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT DB
Top == 1114111
Decompositions == DB.decomp
Foldings == DB.fold
\* join touching and overlapping ranges of a sorted sequence
Join(s) == FoldLeft(LAMBDA a, r : IF a # <<>> /\ r[1] <= a[Len(a)][2] + 1
                                  THEN [a EXCEPT ![Len(a)][2] = IF r[2] > @ THEN r[2] ELSE @] ELSE Append(a, <<r[1], r[2]>>), <<>>, s)
Union(s) == Join(SortSeq(s, LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])))
OfCat(want) == SelectSeq(DB.cats, LAMBDA r : r[3] \in want)
Of(want, names) == Union(FoldLeft(LAMBDA a, p : IF p[1] \in names THEN a \o p[2] ELSE a, OfCat(want), DB.props))
\* is c in one of the sorted ranges lo..hi of s
RECURSIVE Within(_, _, _, _)
Within(s, c, lo, hi) == IF lo > hi THEN FALSE
                        ELSE LET m == (lo + hi) \div 2 IN IF c < s[m][1] THEN Within(s, c, lo, m - 1) ELSE IF c > s[m][2] THEN Within(s, c, m + 1, hi) ELSE TRUE
In(s, c) == Within(s, c, 1, Len(s))
Both(a, b) == FoldLeft(LAMBDA out, r : out \o FoldLeft(LAMBDA o, q : IF q[1] > r[2] \/ q[2] < r[1] THEN o ELSE
                 Append(o, <<IF q[1] > r[1] THEN q[1] ELSE r[1], IF q[2] < r[2] THEN q[2] ELSE r[2]>>), <<>>, b), <<>>, a)
Letters == {"Lu", "Ll", "Lt", "Lm", "Lo", "Nl"}
Numbers == {"Nd", "Nl", "No"}
Puncts == {"Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po"}
Marks == {"Mn", "Mc", "Me"}
Symbols == {"Sm", "Sc", "Sk", "So"}
XmlStart == << <<58, 58>>, <<65, 90>>, <<95, 95>>, <<97, 122>>, <<192, 214>>, <<216, 246>>, <<248, 767>>, <<880, 893>>, <<895, 8191>>, <<8204, 8205>>,
               <<8304, 8591>>, <<11264, 12271>>, <<12289, 55295>>, <<63744, 64975>>, <<65008, 65533>>, <<65536, 983039>> >>
XmlMore == << <<45, 45>>, <<46, 46>>, <<48, 57>>, <<183, 183>>, <<768, 879>>, <<8255, 8256>> >>
Assigned == Union(DB.cats)
Alpha == Of(Letters, {"Other_Alphabetic", "Other_Lowercase", "Other_Uppercase"})
Alnum == Of(Letters \cup Numbers, {"Other_Alphabetic", "Other_Lowercase", "Other_Uppercase"})
Class(name) ==
  CASE name = "isalpha" -> Alpha
    [] name = "isalnum" -> Alnum
    [] name = "isdigit" -> Of(Numbers, {})
    [] name = "isupper" -> Of({"Lu"}, {"Other_Uppercase"})
    [] name = "islower" -> Of({"Ll"}, {"Other_Lowercase"})
    [] name = "iscntrl" -> Of({"Cc"}, {})
    [] name = "isgraph" -> Of(Letters \cup Numbers \cup Puncts \cup Marks \cup Symbols \cup {"Zs"}, {})
    [] name = "ispunct" -> Of(Puncts, {"Dash", "Terminal_Punctuation"})
    [] name = "isuspace" -> Of({"Zs"}, {})
    [] name = "isspace" -> Union(OfCat({"Zs", "Zl", "Zp"}) \o << <<9, 13>>, <<32, 32>>, <<133, 133>> >>)
    [] name = "ismark" -> Of(Marks, {})
    [] name = "issymbol" -> Of(Symbols, {})
    [] name = "isxdigit" -> Of({}, {"Hex_Digit", "ASCII_Hex_Digit"})
    [] name = "isxmlnamestartchar" -> Join(Both(Assigned, XmlStart))
    [] name = "isxmlnamechar" -> Join(Both(Assigned, Union(XmlStart \o XmlMore)))
\* the same for bytes, in the C locale
U == <<65, 90>>
L == <<97, 122>>
N == <<48, 57>>
Ascii(name) ==
  CASE name = "isascii" -> << <<0, 127>> >>
    [] name = "isalpha" -> <<U, L>>
    [] name = "isalnum" -> <<N, U, L>>
    [] name = "isdigit" -> <<N>>
    [] name = "isupper" -> <<U>>
    [] name = "islower" -> <<L>>
    [] name = "iscntrl" -> << <<0, 31>>, <<127, 127>> >>
    [] name = "isgraph" -> << <<33, 126>> >>
    [] name = "isprint" -> << <<32, 126>>, <<128, 255>> >>          \* whatever is not a control character
    [] name = "ispunct" -> << <<33, 47>>, <<58, 64>>, <<91, 96>>, <<123, 126>> >>
    [] name = "isspace" -> << <<9, 13>>, <<32, 32>> >>
    [] name = "isxdigit" -> <<N, <<65, 70>>, <<97, 102>> >>
    [] name = "isDNAbase" -> Union(FoldLeft(LAMBDA a, c : a \o << <<c, c>>, <<c + 32, c + 32>> >>, <<>>, <<65, 67, 71, 84>>))
    [] name = "isvowel" -> Union(FoldLeft(LAMBDA a, c : a \o << <<c, c>>, <<c + 32, c + 32>> >>, <<>>, <<65, 69, 73, 79, 85>>))
    [] name = "isvowely" -> Union(FoldLeft(LAMBDA a, c : a \o << <<c, c>>, <<c + 32, c + 32>> >>, <<>>, <<65, 69, 73, 79, 85, 89>>))
Cased(name) == [i \in 1..256 |-> LET c == i - 1 IN IF name = "tolower" THEN IF c \in 65..90 THEN c + 32 ELSE c ELSE IF c \in 97..122 THEN c - 32 ELSE c]

\* ---- normalisation: decompose fully, fold the case of each part, keep letters and digits and the spaces between them
RECURSIVE Look(_, _, _, _)
Look(s, c, lo, hi) == IF lo > hi THEN <<>>
                      ELSE LET m == (lo + hi) \div 2 IN IF c < s[m][1] THEN Look(s, c, lo, m - 1) ELSE IF c > s[m][1] THEN Look(s, c, m + 1, hi) ELSE s[m][2]
Decomp(c) == Look(Decompositions, c, 1, Len(Decompositions))
CaseFold(c) == LET f == Look(Foldings, c, 1, Len(Foldings)) IN IF f = <<>> THEN <<c>> ELSE f
RECURSIVE Full(_)
Full(c) == IF Decomp(c) = <<>> THEN <<c>> ELSE FoldLeft(LAMBDA a, d : a \o Full(d), <<>>, Decomp(c))
Kept(c) == FoldLeft(LAMBDA a, d : a \o (IF d = 32 THEN <<32>> ELSE SelectSeq(CaseFold(d), LAMBDA x : In(Alnum, x))), <<>>, Full(c))
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[1] = 32 THEN Trim(SubSeq(s, 2, Len(s))) ELSE IF s[Len(s)] = 32 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Normal(c) == Trim(Kept(c))

\* ---- UTF-8
Encode(c) == IF c < 128 THEN <<c>>
             ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
             ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
             ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Promised(b) == IF b < 128 THEN 1 ELSE IF b \in 192..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..247 THEN 4 ELSE 0
\* how many bytes of s the first character takes, none if they do not encode one
Taken(s) == IF s = <<>> THEN 0
            ELSE LET n == Promised(s[1]) IN IF n = 0 \/ n > Len(s) \/ \E i \in 2..n : s[i] \notin 128..191 THEN 0 ELSE n
Decode(s) == LET n == Taken(s) lead == CASE n = 1 -> s[1] [] n = 2 -> s[1] - 192 [] n = 3 -> s[1] - 224 [] n = 4 -> s[1] - 240 [] n = 0 -> 65533
                 v == IF n = 0 THEN 65533 ELSE FoldLeft(LAMBDA a, b : a * 64 + b - 128, lead, SubSeq(s, 2, n))
             IN IF v > Top THEN 65533 ELSE v
=============================================================================
