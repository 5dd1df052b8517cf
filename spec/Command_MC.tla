---------------------------- MODULE Command_MC -----------------------------
(* The parser at work: it walks the options for each argument and takes the first that fits and has no rival with a longer name further
   on.  Beside it, what a command line means. *)
EXTENDS Command, TLC, Json
CONSTANTS Options, Args, Types, Wide, Numbers
VARIABLES opts, line, st, want     \* line: the arguments so far; st: as parsed; want: the option that waits for its value (0: none)
vars == <<opts, line, st, want>>
NameSet == {<<1>>, <<1, 1>>, <<1, 2>>, <<1, 2, 1>>} \cup (IF Wide > 2 THEN {<<2>>} ELSE {})
Words == UNION {[1..n -> {1, 2}] : n \in 1..Wide}
Option == {[short |-> s, long |-> l, type |-> t, desc |-> <<>>] : s \in NameSet, l \in NameSet, t \in Types}
NoteOption == [short |-> <<>>, long |-> <<>>, type |-> "note", desc |-> <<>>]
Blank(n) == [vals |-> [i \in 1..n |-> <<>>], says |-> <<>>]
Init == /\ opts \in UNION {[1..n -> Option] : n \in 1..Options} \cup {<<NoteOption, o>> : o \in Option}
        /\ line = <<>> /\ st = Blank(Len(opts)) /\ want = 0
RECURSIVE Longest(_, _)
Longest(i, a) == IF i > Len(opts) THEN 0
                 ELSE LET later == Longest(i + 1, a)
                          mine == {Len(n) : n \in {m \in Names(opts[i]) : Starts(a, m)}}
                      IN CHOOSE x \in mine \cup {later} : \A y \in mine \cup {later} : y <= x
RECURSIVE Scan(_, _)
Scan(i, a) ==
  IF i > Len(opts) THEN <<"unknown", 0, 0>>
  ELSE LET o == opts[i] IN
    IF Note(o) THEN Scan(i + 1, a)
    ELSE IF a = o.short \/ a = o.long THEN <<"exact", i, 0>>
    ELSE IF Starts(a, o.long) /\ Len(o.long) >= Longest(i, a) THEN <<"joined", i, Len(o.long)>>
    ELSE IF Starts(a, o.short) /\ Len(o.short) >= Longest(i, a) THEN <<"joined", i, Len(o.short)>>
    ELSE Scan(i + 1, a)
Next == /\ Len(line) < Args /\ UNCHANGED opts
        /\ \E a \in Words :
             /\ line' = Append(line, a)
             /\ IF want # 0 THEN st' = Put(st, opts, want, a) /\ want' = 0
                ELSE \E r \in {Scan(1, a)} :
                  CASE r[1] = "unknown" -> st' = [st EXCEPT !.says = Append(@, <<a, "unknown">>)] /\ want' = 0
                    [] r[1] = "joined" -> st' = Put(st, opts, r[2], Text(a, r[3] + 1)) /\ want' = 0
                    [] OTHER -> IF opts[r[2]].type = "bool" THEN st' = Put(st, opts, r[2], <<>>) /\ want' = 0 ELSE st' = st /\ want' = r[2]
Spec == Init /\ [][Next]_vars
Ended == IF want = 0 THEN st ELSE [st EXCEPT !.says = Append(@, <<<<>>, Missing(opts[want].type)>>)]
Meaning == Parse(opts, Blank(Len(opts)), line)
Right == Ended = Meaning
\* apart or joined is the same, unless joined it reads as another name
Joined == line = <<>> => \A i \in DOMAIN opts : opts[i].type # "string" \/ \A n \in Names(opts[i]) : \A w \in Words :
            (LET m == Meant(opts, n \o w) IN m.n = n /\ m.i = i) =>
              (Meant(opts, n).i = i => Parse(opts, Blank(Len(opts)), <<n \o w>>) = Parse(opts, Blank(Len(opts)), <<n, w>>))
\* the last of several wins, and nobody else's value changes
Frame == \A i \in DOMAIN opts : Note(opts[i]) => Meaning.vals[i] = <<>>

(* ---- numbers ---- *)
RECURSIVE InBase(_, _)
InBase(n, b) == IF n < b THEN <<IF n < 10 THEN n + 48 ELSE n + 87>> ELSE InBase(n \div b, b) \o <<IF n % b < 10 THEN (n % b) + 48 ELSE (n % b) + 87>>
Of(n) == Magnitude(InBase(n, 10))
Arithmetic == \A n \in Numbers :
  /\ Number(Show(FALSE, Of(n))) = n /\ Number(Show(TRUE, Of(n))) = 0 - n
  /\ Magnitude(<<48, 120>> \o InBase(n, 16)) = Of(n) /\ (n > 0 => Magnitude(<<45, 48>> \o InBase(n, 8)) = Of(n))
  /\ \A m \in {n - 1, n, n + 1, 10 * n, 99} : m >= 0 => (Below(Of(n), Of(m)) <=> n < m)
  /\ LET f == InBase(n, 10) IN
     /\ (n > 2000 \/ Fraction("double", f) = Good(Show(FALSE, Of(n * 1000000))))
     /\ Fraction("double", <<45>> \o f \o <<101, 45, 54>>) = Good(Show(TRUE, Of(n)))
     /\ Fraction("float", <<46>> \o f \o <<101, 51>>) = Fraction("float", (IF Len(f) <= 3 THEN f \o [i \in 1..(3 - Len(f)) |-> 48] ELSE SubSeq(f, 1, 3) \o <<46>> \o Text(f, 4)))
Edges == \A t \in SignedTypes \cup UnsignedTypes : LET up == Grow(Largest(t), 1, 1) IN
  /\ Whole(t, Show(FALSE, Largest(t))).ok /\ Whole(t, Show(FALSE, up)) = Bad("overflow")
  /\ Whole(t, Show(TRUE, Lowest(t))).ok /\ Whole(t, Show(TRUE, Grow(Lowest(t), 1, 1))) = Bad("underflow")
  /\ (t \in UnsignedTypes => Whole(t, <<45, 48>>) = Good(<<48>>) /\ Whole(t, <<45, 49>>) = Bad("underflow"))
ManyNumbers == (0..130) \cup {255, 256, 999, 1000, 1999, 2000, 65535, 100000, 123456789}
ASSUME Arithmetic /\ Edges
============================================================================
