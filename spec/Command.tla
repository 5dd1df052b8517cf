------------------------------ MODULE Command ------------------------------
(* A command line: which option each argument stands for, what value it gets, what is complained about; and the help text.
   Texts are sequences of bytes; an option is [short, long, type, desc]; a value is the text of it (a bool 0 or 1, a number its decimal
   digits, a fraction its millionths). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Less(a, b) == IF a < b THEN a ELSE b
Text(t, from) == SubSeq(t, from, Len(t))
Starts(a, n) == Len(n) <= Len(a) /\ SubSeq(a, 1, Len(n)) = n

(* ---- whole numbers of any size: the digits, most significant first, no leading zeros (<<>> is 0) ---- *)
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ Head(d) = 0 THEN Strip(Tail(d)) ELSE d
\* d * m + a, digit by digit from the right
RECURSIVE Grow(_, _, _)
Grow(d, m, a) == IF d = <<>> THEN (IF a = 0 THEN <<>> ELSE Append(Grow(<<>>, m, a \div 10), a % 10))
                 ELSE LET x == d[Len(d)] * m + a IN Append(Grow(SubSeq(d, 1, Len(d) - 1), m, x \div 10), x % 10)
Below(a, b) == \/ Len(a) < Len(b)
               \/ Len(a) = Len(b) /\ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
DigitOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
Decimal(t, base) == Strip(FoldLeft(LAMBDA d, c : Grow(d, base, DigitOf(c)), <<>>, t))
Signed(t) == t # <<>> /\ t[1] \in {43, 45}
Negative(t) == t # <<>> /\ t[1] = 45
Unsigned(t) == IF Signed(t) THEN Tail(t) ELSE t
\* the digits a whole number's text stands for: 0x.. hexadecimal, 0.. octal, else decimal
Magnitude(t) == LET u == Unsigned(t) IN
  IF Len(u) > 2 /\ u[1] = 48 /\ u[2] \in {120, 88} THEN Decimal(Text(u, 3), 16) ELSE IF u[1] = 48 THEN Decimal(u, 8) ELSE Decimal(u, 10)
Largest(type) ==
  CASE type = "short" -> <<3,2,7,6,7>>
    [] type = "ushort" -> <<6,5,5,3,5>>
    [] type = "int" -> <<2,1,4,7,4,8,3,6,4,7>>
    [] type = "uint" -> <<4,2,9,4,9,6,7,2,9,5>>
    [] type \in {"long", "llong"} -> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
    [] OTHER -> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
SignedTypes == {"short", "int", "long", "llong"}
UnsignedTypes == {"ushort", "uint", "ulong", "ullong"}
Lowest(type) == IF type \in SignedTypes THEN Grow(Largest(type), 1, 1) ELSE <<>>
Show(neg, d) == (IF neg /\ d # <<>> THEN <<45>> ELSE <<>>) \o (IF d = <<>> THEN <<48>> ELSE [i \in DOMAIN d |-> d[i] + 48])
Good(v) == [ok |-> TRUE, v |-> v]
Bad(why) == [ok |-> FALSE, v |-> why]
Whole(type, t) ==
  LET d == Magnitude(t) IN
  IF Negative(t) /\ Below(Lowest(type), d) THEN Bad("underflow") ELSE IF ~Negative(t) /\ Below(Largest(type), d) THEN Bad("overflow") ELSE Good(Show(Negative(t), d))

(* ---- fractions: [sign] digits [. digits] [e [sign] digits] ---- *)
At(t, S) == IF \E i \in DOMAIN t : t[i] \in S THEN CHOOSE i \in DOMAIN t : t[i] \in S /\ \A j \in 1..(i - 1) : t[j] \notin S ELSE Len(t) + 1
Small(d) == FoldLeft(LAMBDA a, c : a * 10 + c, 0, d)
Fraction(type, t) ==
  LET u == Unsigned(t)
      e == At(u, {101, 69})  dot == At(SubSeq(u, 1, e - 1), {46})
      x == IF e >= Len(u) THEN 0 ELSE LET p == Text(u, e + 1) IN (IF Negative(p) THEN -1 ELSE 1) * Small([i \in DOMAIN Unsigned(p) |-> Unsigned(p)[i] - 48])
      digits == [i \in DOMAIN (SubSeq(u, 1, dot - 1) \o SubSeq(u, dot + 1, e - 1)) |-> (SubSeq(u, 1, dot - 1) \o SubSeq(u, dot + 1, e - 1))[i] - 48]
      zeros == Len(digits) - Len(Strip(digits))
      size == (dot - 1) - zeros + x           \* how many digits stand before the point
      cut == (dot - 1) + x + 6                \* how many digits make the millionths
      shown == IF cut <= 0 THEN <<>> ELSE [i \in 1..cut |-> IF i <= Len(digits) THEN digits[i] ELSE 0]
  IN IF u = <<>> \/ ~(u[1] \in 48..57 \/ (u[1] = 46 /\ Len(u) > 1 /\ u[2] \in 48..57)) THEN Bad("nan")
     ELSE IF Strip(digits) # <<>> /\ size > (IF type = "float" THEN 39 ELSE 309) THEN Bad(IF Negative(t) THEN "underflow" ELSE "overflow")
     ELSE Good(Show(Negative(t), Strip(shown)))

(* ---- the value an option gets from a text ---- *)
Fractions == {"float", "double"}
Value(type, t) ==
  CASE type = "bool" -> Good(<<49>>)
    [] type = "string" -> Good(t)
    [] type \in Fractions -> Fraction(type, t)
    [] OTHER -> Whole(type, t)
Missing(type) == IF type = "string" THEN "missing" ELSE "number missing"
\* a number off by no more than its type permits
Number(v) == LET s == IF v[1] = 45 THEN Tail(v) ELSE v IN (IF v[1] = 45 THEN -1 ELSE 1) * Small([i \in DOMAIN s |-> s[i] - 48])
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Same(type, want, got) == IF type \in Fractions /\ want # got THEN Len(got) < 12 /\ Abs(Number(want) - Number(got)) <= 1 + (IF type = "float" THEN Abs(Number(want)) \div 8000000 ELSE 0) ELSE want = got

(* ---- which option ---- *)
Note(o) == o.short = <<>> \/ o.long = <<>>
Names(o) == IF Note(o) THEN {} ELSE {o.short, o.long}
Fitting(opts, a) == {n \in UNION {Names(opts[i]) : i \in DOMAIN opts} : Starts(a, n)}
LongestOf(S) == CHOOSE n \in S : \A m \in S : Len(m) <= Len(n)
\* the option with the longest name that the argument starts with; of several with that name, the first
Meant(opts, a) == LET n == LongestOf(Fitting(opts, a)) IN [n |-> n, i |-> CHOOSE i \in DOMAIN opts : n \in Names(opts[i]) /\ \A j \in 1..(i - 1) : n \notin Names(opts[j])]
Put(st, opts, i, t) == LET v == Value(opts[i].type, t) IN
  IF v.ok THEN [st EXCEPT !.vals[i] = v.v] ELSE [st EXCEPT !.says = Append(@, <<t, v.v>>)]
RECURSIVE Parse(_, _, _)
Parse(opts, st, args) ==
  IF args = <<>> THEN st
  ELSE LET a == Head(args) rest == Tail(args) IN
       IF Fitting(opts, a) = {} THEN Parse(opts, [st EXCEPT !.says = Append(@, <<a, "unknown">>)], rest)
       ELSE LET m == Meant(opts, a) IN
            IF Len(a) > Len(m.n) THEN Parse(opts, Put(st, opts, m.i, Text(a, Len(m.n) + 1)), rest)      \* the value follows at once
            ELSE IF opts[m.i].type = "bool" THEN Parse(opts, Put(st, opts, m.i, <<>>), rest)
            ELSE IF rest = <<>> THEN [st EXCEPT !.says = Append(@, <<<<>>, Missing(opts[m.i].type)>>)]
            ELSE Parse(opts, Put(st, opts, m.i, Head(rest)), Tail(rest))

(* ---- the help: a line each, the names in columns ---- *)
Widest(S) == CHOOSE n \in {Len(t) : t \in S} \cup {0} : \A t \in S : Len(t) <= n
Pad(t, n) == t \o [i \in 1..(n - Len(t)) |-> 32]
Usage(opts) == LET s == Widest({opts[i].short : i \in DOMAIN opts}) l == Widest({opts[i].long : i \in DOMAIN opts}) IN
  FoldLeft(LAMBDA a, o : a \o (IF o.short = <<>> THEN o.desc ELSE Pad(o.short, s + 1) \o Pad(o.long, l + 1) \o o.desc) \o <<10>>, <<>>, opts)
============================================================================
