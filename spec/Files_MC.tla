---------------------------- MODULE Files_MC ----------------------------
(* A file with a write buffer of its own, step by step, beside a file that is just bytes and a position; and a source made
   of several files, asked for any number of bytes at a time, beside the bytes they hold together. *)
EXTENDS Files, Json
CONSTANTS Buffers, Most, Letters
VARIABLES data, fpos, buf, cap, pos, ref, at, ops, answer, parts, which, off, taken, script
vars == <<data, fpos, buf, cap, pos, ref, at, ops, answer, parts, which, off, taken, script>>
Texts(n) == UNION {[1..k -> Letters] : k \in 0..n}
Init == /\ data \in Texts(2) /\ ref = data /\ cap \in Buffers /\ fpos = 0 /\ buf = <<>> /\ pos = 0 /\ at = 0 /\ ops = 0 /\ answer = TRUE
        /\ parts \in [1..3 -> Texts(2)] /\ which = 1 /\ off = 0 /\ taken = 0 /\ script = <<>>
disk == <<data, fpos, buf>>
Flushed(x) == [data |-> WriteAt(x.data, x.fpos, x.buf), fpos |-> x.fpos + Len(x.buf), buf |-> <<>>]
Now == [data |-> data, fpos |-> fpos, buf |-> buf]
RECURSIVE Spill(_, _)
Spill(x, b) == IF b = <<>> THEN x
               ELSE LET n == IF Len(b) <= cap THEN Len(b) ELSE cap
                    IN Spill([Flushed(x) EXCEPT !.buf = SubSeq(b, 1, n)], SubSeq(b, n + 1, Len(b)))
Into(x, b) == IF Len(x.buf) + Len(b) < cap THEN [x EXCEPT !.buf = @ \o b] ELSE Spill(x, b)
Set(x) == data' = x.data /\ fpos' = x.fpos /\ buf' = x.buf
Same == UNCHANGED <<cap, parts, which, off, taken, script>> /\ ops' = ops + 1
DoWrite(b) == Set(Into(Now, b)) /\ pos' = pos + Len(b) /\ ref' = WriteAt(ref, at, b) /\ at' = at + Len(b) /\ UNCHANGED answer /\ Same
DoRead(n) == \E x \in {Flushed(Now)} : LET got == ReadAt(x.data, x.fpos, n) IN
  /\ data' = x.data /\ buf' = x.buf /\ fpos' = x.fpos + Len(got) /\ pos' = pos + Len(got)
  /\ answer' = (got = ReadAt(ref, at, n)) /\ at' = at + Len(ReadAt(ref, at, n)) /\ UNCHANGED ref /\ Same
DoSeek(n) == \E x \in {Flushed(Now)} : Set([x EXCEPT !.fpos = n]) /\ pos' = n /\ at' = n /\ UNCHANGED <<ref, answer>> /\ Same
DoFlush == Set(Flushed(Now)) /\ UNCHANGED <<pos, ref, at, answer>> /\ Same
\* the source of several files: a short answer from one is made up from the next
RECURSIVE Fill(_, _, _, _)
Fill(w, o, n, got) == LET piece == ReadAt(parts[w], o, n) IN
  IF Len(piece) = n \/ w = Len(parts) THEN <<w, o + Len(piece), got \o piece>> ELSE Fill(w + 1, 0, n - Len(piece), got \o piece)
DoAsk(n) == \E f \in {Fill(which, off, n, <<>>)} :
  /\ which' = f[1] /\ off' = f[2] /\ taken' = taken + Len(f[3]) /\ answer' = (f[3] = ReadAt(Concat(parts), taken, n))
  /\ UNCHANGED <<data, fpos, buf, cap, pos, ref, at, parts, script>> /\ ops' = ops + 1
Next == /\ ops < Most /\ answer
        /\ \/ \E b \in Texts(3) \ {<<>>} : Len(ref) < 6 /\ DoWrite(b)
           \/ \E n \in 1..3 : DoRead(n)
           \/ \E n \in 0..3 : DoSeek(n)
           \/ DoFlush
NextSource == ops < Most /\ answer /\ \E n \in 1..4 : DoAsk(n)
\* the two machines do not meet: explore each with the other at rest
Spec == Init /\ parts = [i \in 1..3 |-> <<>>] /\ [][Next]_vars
SourceSpec == Init /\ data = <<>> /\ cap = 1 /\ [][NextSource]_vars
Right == answer
Told == pos = at
Whole == Flushed(Now).data = ref
Size == (IF buf # <<>> /\ fpos + Len(buf) > Len(data) THEN fpos + Len(buf) ELSE Len(data)) = Len(ref)
Bounded == Len(buf) <= cap
\* behaviours
GenInit == Init
Pick(S) == RandomElement(S)
Op == LET k == Pick(1..8) IN
  IF k <= 3 THEN [op |-> "write", n |-> Pick({1, 1, 2, 3, 5, 9, 17})] ELSE IF k <= 5 THEN [op |-> "read", n |-> Pick({1, 2, 3, 8})]
  ELSE IF k = 6 THEN [op |-> "seek", n |-> Pick({0, 0, 1, 3, 7, 12})] ELSE IF k = 7 THEN [op |-> "flush", n |-> 0] ELSE [op |-> Pick({"tell", "size"}), n |-> 0]
GenNext == /\ Len(script) < 14 /\ \E o \in {Op} : script' = Append(script, o)
           /\ UNCHANGED <<data, fpos, buf, cap, pos, ref, at, ops, answer, parts, which, off, taken>>
GenSpec == GenInit /\ data = <<>> /\ parts = [i \in 1..3 |-> <<>>] /\ [][GenNext]_vars
Show == Len(script) \notin {6, 14} \/ PrintT("@@" \o ToJson([ops |-> script, cap |-> cap]))
=========================================================================
