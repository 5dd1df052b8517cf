------------------------------ MODULE Index_MC ------------------------------
(* Every way of building a small index, document at a time, then: reading the  *)
(* written files gives back exactly the index, whichever order the terms are   *)
(* written in, and no other index.                                             *)
EXTENDS Index
CONSTANTS Terms, Counts, MaxDocs, MaxToks
VARIABLE toks
mvars == <<ivars, toks>>
T(n) == IF n = 1 THEN <<97>> ELSE IF n = 2 THEN <<97, 98>> ELSE <<200>>
Init == IndexInit /\ toks = 0
Next == \/ Len(keys) < MaxDocs /\ Begin(<<75, 48 + Len(keys)>>) /\ toks' = toks
        \/ toks < MaxToks /\ toks' = toks + 1 /\ \E n \in Terms : \E c \in Counts : Tok(T(n), c)
        \/ End(toks + 1) /\ toks' = toks
Spec == Init /\ [][Next]_mvars
Ordered == \A t \in DOMAIN post : Increasing([i \in 1..Len(post[t]) |-> post[t][i][1]])
                /\ \A i \in 1..Len(post[t]) : post[t][i][2] \in 1..LargestImpact
Partition ==        \* impact ordering neither loses nor invents postings
  \A t \in DOMAIN post :
     LET g == GroupsDown(post[t])
     IN /\ \A j \in 1..(Len(g) - 1) : g[j][1] > g[j + 1][1]
        /\ UNION {{<<g[j][2][i], g[j][1]>> : i \in 1..Len(g[j][2])} : j \in 1..Len(g)} = {post[t][i] : i \in 1..Len(post[t])}
        /\ \A j \in 1..Len(g) : Increasing(g[j][2])
Perms == SetToSeqs(DOMAIN post)
Drop(ix) == [ix EXCEPT !.keys = SubSeq(@, 2, Len(@))]
Moved(ix) == LET t == CHOOSE t \in DOMAIN ix.groups : TRUE
             IN [ix EXCEPT !.groups = (t :> [@[t] EXCEPT ![1] = <<@[1] + 1, @[2]>>]) @@ @]
Bump(d) == [i \in 1..Len(d) |-> IF i = Len(d) THEN d[i] + 1 ELSE d[i]]
Swapped(ix) == LET t == CHOOSE t \in DOMAIN ix.groups : TRUE
             IN [ix EXCEPT !.groups = (t :> [@[t] EXCEPT ![1] = <<@[1], Bump(@[2])>>]) @@ @]
RoundTrip ==
  (~open /\ keys # <<>> /\ post # <<>>) =>
     \A v \in {1, 2} : \A p \in Perms :
        LET f == Write(v, Content, p)
            S(ix) == Says(v, "s", 1, f.vocab, f.strings, f.postings, f.doclist, ix)
        IN S(Content) /\ ~S(Drop(Content)) /\ ~S(Moved(Content)) /\ ~S(Swapped(Content))
\* every posting's impact follows its score, over the whole range
Quantised ==
  (post # <<>>) =>
     LET S == AllScores(<<3, 2, 1>>)
         lo == Lowest(S)
         hi == Highest(S)
     IN lo # hi => /\ \A s \in S : ImpactOf(s, lo, hi) \subseteq 1..LargestImpact
                   /\ \A s, r \in S : s < r => \A x \in ImpactOf(s, lo, hi) : \E y \in ImpactOf(r, lo, hi) : x <= y
=============================================================================
