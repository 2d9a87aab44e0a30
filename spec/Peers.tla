------------------------------- MODULE Peers --------------------------------
(* The shared pool of candidate peers of one torrent (C12).                  *)
(*                                                                           *)
(* st[p] is the standing of peer p; "active" means handed out and not yet    *)
(* returned.  All clones of the pool share st, every call is one atomic step.*)
EXTENDS Conf

CONSTANTS N,            \* peers are 0..N-1
          EnoughPeers,  \* how many usable peers make "enough"
          BadLists      \* TRUE: exhaustive instance includes returns of two peers at once

VARIABLES st, in, out

vars == <<st, in, out>>
View == st

Peer == 0..(N - 1)
Statuses == {"active", "unknown", "nouseful", "choked", "unable"}
Fresh == "none"

Init == /\ st = [p \in Peer |-> Fresh]
        /\ in = [op |-> "init"]
        /\ out = [op |-> "init"]

Reset == /\ st' = [p \in Peer |-> Fresh]
         /\ in' = [op |-> "reset"]
         /\ out' = [op |-> "reset"]

\* hand-out preference, smaller is better; an active peer is never a candidate
Rank(s) == CASE s = "unknown"  -> 1
             [] s = "nouseful" -> 2
             [] s = "choked"   -> 3
             [] s = "unable"   -> 4

Known(s) == {p \in Peer : s[p] # Fresh}
Good(s) == {p \in Peer : s[p] \notin {Fresh, "unable"}}
Candidates(s) == {p \in Peer : s[p] \notin {Fresh, "active"}}

\* Overridden when checking recorded executions, where the observation names the choice.
Subsets(k, S) == kSubset(k, S)

\* all largest best batches of size at most n
Batches(s, n) ==
    LET C == Candidates(s)
    IN  {B \in Subsets(MinOf(n, Cardinality(C)), C) :
            LET chosen == {Rank(s[b]) : b \in B}
                left == {Rank(s[c]) : c \in C \ B}
            IN  \A x \in chosen, y \in left : x <= y}

\* the standing after a list of returned peers, applied in order
Returned(s, bad) == FoldLeft(LAMBDA acc, b : [acc EXCEPT ![b.p] = b.s], s, bad)

Insert(i) == /\ st' = [st EXCEPT ![i.p] = IF @ = Fresh THEN "unknown" ELSE @]
             /\ out' = [op |-> "insert"]

Extend(i) == /\ st' = [p \in Peer |-> IF st[p] = Fresh /\ p \in Range(i.ps)
                                      THEN "unknown" ELSE st[p]]
             /\ out' = [op |-> "extend"]

\* listing good peers: any as-large-as-possible choice, and no effect at all
List(i) == /\ UNCHANGED st
           /\ \E B \in Subsets(MinOf(i.n, Cardinality(Good(st))), Good(st)) :
                 out' = [op |-> "list", ps |-> Sorted(B)]

Enough(i) == /\ UNCHANGED st
             /\ out' = [op |-> "enough", yes |-> Cardinality(Good(st)) >= EnoughPeers]

All(i) == /\ UNCHANGED st
          /\ out' = [op |-> "all", ps |-> Sorted(Known(st))]

Take(i) == LET s == Returned(st, i.bad)
           IN  \E B \in Batches(s, i.n) :
                  /\ st' = [p \in Peer |-> IF p \in B THEN "active" ELSE s[p]]
                  /\ out' = [op |-> "take", ps |-> Sorted(B)]

Step(i) == /\ in' = i
           /\ CASE i.op = "insert" -> Insert(i)
                [] i.op = "extend" -> Extend(i)
                [] i.op = "list"   -> List(i)
                [] i.op = "enough" -> Enough(i)
                [] i.op = "all"    -> All(i)
                [] i.op = "take"   -> Take(i)

OneBad == {[p |-> p, s |-> s] : p \in Peer, s \in Statuses}
Bads == {<<>>} \cup {<<b>> : b \in OneBad}
        \cup (IF BadLists THEN {<<a, b>> : a, b \in OneBad} ELSE {})

Inputs == {[op |-> "insert", p |-> p] : p \in Peer}
          \cup {[op |-> "extend", ps |-> <<p, q>>] : p, q \in Peer}
          \cup {[op |-> "list", n |-> n] : n \in 0..N}
          \cup {[op |-> "enough"], [op |-> "all"]}
          \cup {[op |-> "take", bad |-> b, n |-> n] : b \in Bads, n \in 0..N}

Next == \E i \in Inputs : Step(i)
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
(* C12, stated on observations and standings, independently of the actions. *)
GivenBack == IF in'.op = "take" THEN {b.p : b \in Range(in'.bad)} ELSE {}

NoDoubleHandOut ==
    [][out'.op = "take" =>
          \A p \in Range(out'.ps) : st[p] # "active" \/ p \in GivenBack]_vars

RediscoveryIsHarmless ==
    [][in'.op \in {"insert", "extend"} =>
          \A p \in Peer : st[p] # Fresh => st'[p] = st[p]]_vars

ListingIsPure == [][in'.op \in {"list", "enough", "all"} => st' = st]_vars

BatchBounded ==
    [][out'.op \in {"take", "list"} =>
          /\ Len(out'.ps) <= in'.n
          /\ Cardinality(Range(out'.ps)) = Len(out'.ps)]_vars

\* nothing better is left behind, and nothing is left when the batch is short
BestFirst ==
    [][out'.op = "take" =>
          /\ \A b \in Range(out'.ps), c \in Candidates(st') :
                c \notin GivenBack /\ b \notin GivenBack /\ st[b] # Fresh
                    => Rank(st[b]) <= Rank(st'[c])
          /\ Len(out'.ps) < in'.n => Candidates(st') = {}]_vars

NothingForgotten == [][in'.op # "reset" => Known(st) \subseteq Known(st')]_vars
=============================================================================
