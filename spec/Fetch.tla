-------------------------------- MODULE Fetch --------------------------------
(* Downloading pieces from peers that answer, lie, stay silent, choke or     *)
(* vanish (C10).  A request is awaited until it is answered, or some seconds *)
(* have passed without an answer; then it is free to be asked for again.     *)
EXTENDS WireFmt

CONSTANTS BL,      \* BL[k + 1][b + 1]: length of block b of piece k
          Peers,
          Cap,     \* requests under way with one peer at most
          Style    \* which inputs the bounded instance explores

VARIABLES up, ch, cur, led, late, redo, in, out
vars == <<up, ch, cur, led, late, redo, in, out>>

\* up[p], ch[p]: the session is open; the peer is choking
\* cur[p]: pieces asked of p and not yet finished by it
\* led[k]: <<>> if the piece is not being downloaded, or what is known of each of its blocks:
\*   st: "need", "good", "bad"; own: who may be the one it is awaited from (0: nobody)
\* redo[p]: blocks p answered with something unusable while it was choking
\* late[p]: blocks p was asked for whose fate p's downloader has not noticed yet

GeoShort == <<<<16384, 16384>>, <<16384, 5>>>>
GeoOne == <<<<16384, 16384>>>>
GeoLong == <<[b \in 1..18 |-> IF b = 18 THEN 77 ELSE 16384]>>
GeoMany == [k \in 1..4 |-> IF k = 4 THEN <<16384, 16384, 16384, 1>> ELSE [b \in 1..4 |-> 16384]]

NP == Len(BL)
Piece == 0..(NP - 1)
NB(k) == Len(BL[k + 1])
\* a block is named by one number
Id(k, b) == k * 100 + b
K(x) == x \div 100
B(x) == x % 100
All == UNION {{Id(k, b) : b \in 0..(NB(k) - 1)} : k \in Piece}
LenOf(x) == BL[K(x) + 1][B(x) + 1]
Good(x) == RRep((16 * K(x) + B(x) + 1) % 251, LenOf(x))
Content(k) == RCats([b \in 1..NB(k) |-> Good(Id(k, b - 1))])

Nobody == {0}
Need == [st |-> "need", own |-> Nobody]
Fresh(k) == [b \in 1..NB(k) |-> Need]
At(l, x) == l[K(x) + 1][B(x) + 1]
Needed(l) == {x \in All : l[K(x) + 1] # <<>> /\ At(l, x).st = "need"}
Update(l, S, f(_)) == [k \in 1..NP |-> IF l[k] = <<>> THEN <<>>
                          ELSE [b \in 1..NB(k - 1) |-> IF Id(k - 1, b - 1) \in S THEN f(Id(k - 1, b - 1)) ELSE l[k][b]]]

View == [up |-> up, ch |-> ch, cur |-> [p \in Peers |-> Sorted(cur[p])],
         led |-> [k \in 1..NP |-> [b \in 1..Len(led[k]) |-> [st |-> led[k][b].st, own |-> Sorted(led[k][b].own)]]],
         late |-> [p \in Peers |-> Sorted(late[p])], redo |-> [p \in Peers |-> Sorted(redo[p])]]

Start == /\ up' = [p \in Peers |-> TRUE] /\ ch' = [p \in Peers |-> TRUE] /\ cur' = [p \in Peers |-> {}]
         /\ led' = [k \in 1..NP |-> <<>>] /\ late' = [p \in Peers |-> {}] /\ redo' = [p \in Peers |-> {}]
Init == /\ up = [p \in Peers |-> TRUE] /\ ch = [p \in Peers |-> TRUE] /\ cur = [p \in Peers |-> {}]
        /\ led = [k \in 1..NP |-> <<>>] /\ late = [p \in Peers |-> {}] /\ redo = [p \in Peers |-> {}]
        /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == Start /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

Reqs(S) == LET T == Sorted(S) IN [n \in 1..Len(T) |-> <<K(T[n]), B(T[n]), LenOf(T[n])>>]
None == [p \in Peers |-> {}]
Obs(op, res, fin, reqs) == [op |-> op, res |-> res, fin |-> fin, reqs |-> [p \in Peers |-> Reqs(reqs[p])]]

Mine(l, p) == {x \in Needed(l) : At(l, x).own = {p}}
Lowest(S, n) == LET T == Sorted(S) IN {T[j] : j \in 1..MinOf(n, Len(T))}

\* for traces this is replaced by what was recorded
Some(S) == SUBSET S
SomeOf(S) == SUBSET S \ {{}}

\* if not everything fits, blocks at either end come first
Highest(S, n) == LET T == Sorted(S) IN {T[j] : j \in (Len(T) - MinOf(n, Len(T)) + 1)..Len(T)}
Pick(S, n) == IF Cardinality(S) <= n THEN {S} ELSE {Lowest(S, a) \cup Highest(S, n - a) : a \in 0..n}

(* p's downloader looks around: it asks for what nobody is asked for.        *)
(* l, c: ledger and asked pieces so far; rd: answered unusably.       *)
Wake(op, p, l, c, h, lt, rd, res, fin) ==
    LET mineBefore == Mine(l, p)
        want == {x \in Needed(l) : K(x) \in c[p]}
        free == {x \in want : At(l, x).own = Nobody}
        room == MaxOf(0, Cap - Cardinality(mineBefore))
        again == {x \in (redo[p] \cup rd) \cap want : p \in At(l, x).own}
        may == {x \in want : 0 \in At(l, x).own /\ At(l, x).own # Nobody} \cup again
    IN \E S \in Some(may), must \in (IF h[p] THEN {{}} ELSE Pick(free, room)) :
         LET R == IF h[p] THEN {} ELSE must \cup S
         IN /\ led' = Update(l, IF h[p] THEN {} ELSE R \cup may,
                             LAMBDA x : IF x \in R THEN [st |-> "need", own |-> {p}]
                                        ELSE [st |-> "need", own |-> At(l, x).own \ Nobody])
            /\ cur' = c /\ ch' = h /\ up' = up
            /\ late' = [lt EXCEPT ![p] = {}] /\ redo' = [redo EXCEPT ![p] = IF h[p] THEN again ELSE {}]
            /\ out' = Obs(op, res, fin, [None EXCEPT ![p] = R])

Nothing(op, res) == UNCHANGED <<up, ch, cur, led, late, redo>> /\ out' = Obs(op, res, <<>>, None)

\* the application asks p for piece k
Pending == {k \in Piece : led[k + 1] # <<>>}
Get(i) == IF ~up[i.p] \/ (i.k \notin Pending /\ Cardinality(Pending) >= 10) THEN Nothing("get", "err")
          ELSE Wake("get", i.p,
                    IF led[i.k + 1] = <<>> THEN [led EXCEPT ![i.k + 1] = Fresh(i.k)] ELSE led,
                    [cur EXCEPT ![i.p] = @ \cup {i.k}], ch, late, {}, "ok", <<>>)

Choke(i) == /\ up[i.p]
            /\ Wake(IF i.yes THEN "choke" ELSE "unchoke", i.p, led, cur, [ch EXCEPT ![i.p] = i.yes], late, {}, "ok", <<>>)

NumV(v) == IF v[1] > 0 THEN -1 ELSE v[2] * 65536 + v[3] * 256 + v[4]
Target(m) == LET k == NumV(SubSeq(m.v, 1, 4))
                 g == NumV(SubSeq(m.v, 5, 8))
             IN IF k \notin Piece \/ g < 0 \/ g % 16384 # 0 THEN -1
                ELSE IF g \div 16384 >= NB(k) THEN -1 ELSE Id(k, g \div 16384)

\* p sends a block
Block(i) ==
    LET x == Target(i.m)
        p == i.p
        known == x # -1 /\ K(x) \in cur[p] /\ led[K(x) + 1] # <<>>
        open == known /\ At(led, x).st = "need"
        sure == open /\ At(led, x).own = {p}
        maybe == open /\ (p \in At(led, x).own \/ x \in late[p])
        fits == RLen(i.m.b) = LenOf(x)
        taken == [st |-> IF i.m.b = Good(x) THEN "good" ELSE "bad", own |-> Nobody]
        l1 == Update(led, {x}, LAMBDA y : taken)
        \* others that may have been asked for it find out later
        lt1 == [q \in Peers |-> IF q # p /\ q \in At(led, x).own THEN late[q] \cup {x} ELSE late[q]]
        done == \A b \in 1..NB(K(x)) : l1[K(x) + 1][b].st # "need"
        right == \A b \in 1..NB(K(x)) : l1[K(x) + 1][b].st = "good"
    IN /\ up[p]
       /\ \/ /\ ~(sure /\ fits)
             /\ Wake("block", p, led, cur, ch, late, IF maybe /\ ~fits THEN {x} ELSE {}, "ok", <<>>)
          \/ /\ maybe /\ fits
             /\ IF ~done THEN Wake("block", p, l1, cur, ch, lt1, {}, "ok", <<>>)
                ELSE IF right
                THEN Wake("block", p, [l1 EXCEPT ![K(x) + 1] = <<>>], [cur EXCEPT ![p] = @ \ {K(x)}], ch, lt1, {}, "ok",
                          <<[p |-> p, k |-> K(x), data |-> Content(K(x))]>>)
                ELSE Wake("block", p, [l1 EXCEPT ![K(x) + 1] = Fresh(K(x))], cur, ch, lt1, {}, "ok", <<>>)

\* the connection to p is lost: whatever it was asked for is free again
Lose(i) == /\ up[i.p]
           /\ up' = [up EXCEPT ![i.p] = FALSE] /\ ch' = [ch EXCEPT ![i.p] = TRUE] /\ cur' = [cur EXCEPT ![i.p] = {}]
           /\ late' = [late EXCEPT ![i.p] = {}] /\ redo' = [redo EXCEPT ![i.p] = {}]
           /\ led' = Update(led, {x \in Needed(led) : i.p \in At(led, x).own},
                            LAMBDA x : [st |-> "need", own |-> (At(led, x).own \ {i.p}) \cup Nobody])
           /\ out' = Obs("lose", "ok", <<>>, None)
Open(i) == /\ ~up[i.p]
           /\ up' = [up EXCEPT ![i.p] = TRUE] /\ UNCHANGED <<ch, cur, led, late, redo>>
           /\ out' = Obs("open", "ok", <<>>, None)

\* enough time passes for every request to be given up, and asked for again where possible
CanServe(x) == {p \in Peers : up[p] /\ ~ch[p] /\ K(x) \in cur[p]}
RECURSIVE Ways(_)
\* all ways to give each block of S to some of those who can serve it
Ways(S) == IF S = {} THEN {<<>>}
              ELSE LET x == Min(S) IN {(x :> R) @@ f : R \in SomeOf(CanServe(x)), f \in Ways(S \ {x})}
\* (the instances let time pass only when no peer has more to be asked for than it can be at once)
CanWait == \A p \in Peers : Cardinality({x \in Needed(led) : CanServe(x) = {p}}) <= Cap
Wait(i) ==
    LET S == {x \in Needed(led) : CanServe(x) # {}}
    IN /\ CanWait
       /\ late' = None /\ redo' = None /\ UNCHANGED <<up, ch, cur>>
       /\ \E f \in Ways(S) :
             /\ led' = Update(led, Needed(led), LAMBDA x : [st |-> "need", own |-> IF x \in S THEN f[x] ELSE Nobody])
             /\ out' = Obs("wait", "ok", <<>>, [p \in Peers |-> {x \in S : p \in f[x]}])

Step(i) == /\ in' = i
           /\ CASE i.op = "get" -> Get(i)
                [] i.op \in {"choke", "unchoke"} -> Choke(i)
                [] i.op = "block" -> Block(i)
                [] i.op = "lose" -> Lose(i)
                [] i.op = "open" -> Open(i)
                [] i.op = "wait" -> Wait(i)

----------------------------------------------------------------------------
Four(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Msg4(k, g, b) == Msg("piece", Four(k) \o Four(g), b)
BlockIn(p, m) == [op |-> "block", p |-> p, m |-> m]
Twist(r) == RCat(RTake(r, RLen(r) - 1), ROne(255))
Answers(x) == {Msg4(K(x), B(x) * 16384, Good(x)), Msg4(K(x), B(x) * 16384, Twist(Good(x))),
               Msg4(K(x), B(x) * 16384, RTake(Good(x), LenOf(x) - 1)), Msg4(K(x), B(x) * 16384, RCat(Good(x), ROne(1)))}
Strange == {Msg4(0, 1, Good(0)), Msg4(0, 16383, Good(0)), Msg4(NP, 0, Good(0)), Msg4(0, NB(0) * 16384, Good(0)),
            Msg("piece", <<255, 255, 255, 255, 0, 0, 0, 0>>, Good(0)), Msg("piece", <<0, 0, 0, 0, 255, 255, 192, 0>>, Good(0)),
            Msg4(0, 0, <<>>)}
Inputs == {}
Honest(x) == Msg4(K(x), B(x) * 16384, Good(x))
Next == \/ \E p \in Peers :
           \/ \E k \in Piece : Step([op |-> "get", p |-> p, k |-> k])
           \/ ch[p] /\ Step([op |-> "unchoke", p |-> p, yes |-> FALSE])
           \/ ~ch[p] /\ Step([op |-> "choke", p |-> p, yes |-> TRUE])
           \/ /\ Style = "all"
              /\ \/ \E x \in All : /\ (led[K(x) + 1] = <<>> => x = 0)
                                   /\ \E m \in (IF led[K(x) + 1] # <<>> /\ p \in At(led, x).own THEN Answers(x) ELSE {Honest(x), Msg4(K(x), B(x) * 16384, Twist(Good(x)))}) :
                                        Step(BlockIn(p, m))
                 \/ \E m \in Strange : Step(BlockIn(p, m))
           \/ /\ Style = "ends"   \* only the first awaited block is answered
              /\ Mine(led, p) # {}
              /\ \E x \in {Min(Mine(led, p))} : Step(BlockIn(p, Honest(x)))
           \/ Style = "all" /\ Step([op |-> "lose", p |-> p])
           \/ Step([op |-> "open", p |-> p])
        \/ Step([op |-> "wait"])
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')
OnePeer == {1}
TwoPeers == {1, 2}
ThreePeers == {1, 2, 3}

----------------------------------------------------------------------------
(* Properties *)
\* only what was asked for and is right is reported, by the peer that completed it
OnlyRight == [][in'.op # "reset" => \A n \in 1..Len(out'.fin) :
                   LET f == out'.fin[n] IN /\ f.k \in cur[f.p] /\ f.data = Content(f.k)
                                           /\ led[f.k + 1] # <<>> /\ led'[f.k + 1] = <<>>]_vars
\* nothing is asked of a peer that chokes, or of which nothing was asked
Polite == [][in'.op # "reset" => \A p \in Peers : out'.reqs[p] # <<>> =>
                /\ up'[p] /\ ~ch'[p]
                /\ \A n \in 1..Len(out'.reqs[p]) : out'.reqs[p][n][1] \in cur'[p]]_vars
AtMostCap == \A p \in Peers : Cardinality(Mine(led, p)) <= Cap
\* progress: with time everything that can be served is asked for
NothingForgotten == [][in'.op = "wait" => \A x \in Needed(led') :
                          (CanServe(x) # {} /\ 0 \in At(led', x).own) => \E p \in Peers : Cardinality(Mine(led', p)) = Cap]_vars
\* a peer that unchokes, and is asked for a piece nobody else is asked for, is asked for all of it (up to the limit)
Eager == [][(in'.op \in {"get", "unchoke"} /\ "p" \in DOMAIN in' /\ up'[in'.p] /\ ~ch'[in'.p]) =>
              ((\E x \in Needed(led') : K(x) \in cur'[in'.p] /\ At(led', x).own = Nobody) => Cardinality(Mine(led', in'.p)) = Cap)]_vars
\* an honest answer to an awaited block is never lost
HonestCounts == [][(in'.op = "block" /\ Target(in'.m) # -1 /\ led[K(Target(in'.m)) + 1] # <<>>) =>
                     LET x == Target(in'.m) IN
                     (At(led, x).st = "need" /\ At(led, x).own = {in'.p} /\ in'.m.b = Good(x)) =>
                        \/ led'[K(x) + 1] = <<>> /\ out'.fin # <<>>
                        \/ led'[K(x) + 1] # <<>> /\ At(led', x).st = "good"
                        \/ \E b \in 1..NB(K(x)) : led[K(x) + 1][b].st = "bad"]_vars
=============================================================================
