-------------------------------- MODULE Swarm --------------------------------
(* The torrent manager with many peers (C11): whom it is connected to, what  *)
(* it asks of whom, and which pieces end up on the disk, whatever the peers  *)
(* announce, answer or leave unanswered.  Every piece is one block here (how *)
(* blocks are shared is Fetch's subject).                                    *)
EXTENDS Conf

CONSTANTS Peers,      \* 1..n
          Pool,       \* peers known at the beginning
          NP,         \* number of pieces
          Slots,      \* peers at a time at most
          Active,     \* pieces in progress at most
          Load,       \* pieces in progress with one peer at most
          Share,      \* peers that may work on one piece
          Style

VARIABLES known, up, con, ch, hv, local, own, asked, mb, deaf, in, out
vars == <<known, up, con, ch, hv, local, own, asked, mb, deaf, in, out>>

\* known: peers found so far; up[p]: p can be reached; con[p]: there is a session with p
\* ch[p]: p is choking; hv[p]: what p announced; local: pieces on the disk
\* own[k]: those piece k may be awaited from (0: nobody)
\* asked[p]: pieces asked of p in its present session and not finished
\* mb[p]: pieces p may have been chosen for; deaf: those that do not read anymore

Piece == 0..(NP - 1)
Nobody == {0}
Zero == [p \in Peers |-> 0]
None == [p \in Peers |-> {}]
InProgress(a) == UNION {a[p] : p \in Peers}

View == [known |-> Sorted(known), up |-> [p \in Peers |-> p \in up], con |-> [p \in Peers |-> p \in con],
         ch |-> [p \in Peers |-> ch[p]], hv |-> [p \in Peers |-> Sorted(hv[p])], local |-> Sorted(local),
         own |-> [k \in 1..NP |-> Sorted(own[k - 1])], asked |-> [p \in Peers |-> Sorted(asked[p])],
         mb |-> [p \in Peers |-> Sorted(mb[p])], deaf |-> Sorted(deaf)]

Init == /\ known = Pool /\ up = Peers /\ con = {} /\ ch = [p \in Peers |-> TRUE] /\ hv = None /\ local = {}
        /\ own = [k \in Piece |-> Nobody] /\ asked = None /\ mb = None /\ deaf = {}
        /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == /\ known' = Pool /\ up' = Peers /\ con' = {} /\ ch' = [p \in Peers |-> TRUE] /\ hv' = None /\ local' = {}
         /\ own' = [k \in Piece |-> Nobody] /\ asked' = None /\ mb' = None /\ deaf' = {}
         /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

\* what the remotes and the disk show: new connections, requests, open connections, pieces stored
Obs(op, acc, reqs) ==
    [op |-> op, acc |-> [p \in Peers |-> IF p \in acc THEN 1 ELSE 0], reqs |-> [p \in Peers |-> Sorted(reqs[p])],
     live |-> [p \in Peers |-> IF p \in con' THEN 1 ELSE 0], disk |-> Sorted(local')]

\* for traces these are replaced by what was recorded
Some(S) == SUBSET S
SomeNew(S, least, most) == {A \in SUBSET S : Cardinality(A) >= least /\ Cardinality(A) <= most}
RECURSIVE SomeAsked(_, _)
\* all ways to ask each peer of P for some of what may be asked of it
SomeAsked(P, may) == IF P = {} THEN {None}
                     ELSE LET p == Min(P) IN {[f EXCEPT ![p] = A] : A \in SUBSET may[p], f \in SomeAsked(P \ {p}, may)}

Serving(p) == p \in con /\ ~ch[p]
MayAsk(p) == IF Serving(p) THEN hv[p] \ local ELSE {}

\* p's downloader looks around: blocks that nobody is asked for may be asked of p
Glance(op, p, own1, asked1, mb1) ==
    \E S \in Some(IF p \in con' /\ ~ch'[p] THEN (hv[p] \ local') \cap mb1[p] ELSE {}) :
       /\ own' = [k \in Piece |-> IF k \in S THEN {p} ELSE own1[k]]
       /\ asked' = [asked1 EXCEPT ![p] = @ \cup S]
       /\ mb' = mb1
       /\ out' = Obs(op, {}, [None EXCEPT ![p] = S])

Quiet(op) == /\ UNCHANGED <<known, up, con, ch, local, own, asked, mb>> /\ out' = Obs(op, {}, None)

Have(i) == /\ i.p \in con
           /\ hv' = [hv EXCEPT ![i.p] = IF i.big = 0 /\ i.k \in Piece THEN @ \cup {i.k} ELSE @]
           /\ Quiet("have")

\* bits of the bytes of a bitfield: piece 0 is the highest bit of the first byte
Bit(bytes, k) == (bytes[(k \div 8) + 1] \div (2 ^ (7 - (k % 8)))) % 2 = 1
Bitfield(i) == /\ i.p \in con
               /\ hv' = [hv EXCEPT ![i.p] = IF @ = {} /\ Len(i.bytes) = (NP + 7) \div 8 THEN {k \in Piece : Bit(i.bytes, k)} ELSE @]
               /\ Quiet("bitfield")
\* interested, request, cancel, port and the like change nothing
Idle(i) == i.p \in con /\ hv' = hv /\ Quiet("idle")

Choke(i) == /\ i.p \in con
            /\ ch' = [ch EXCEPT ![i.p] = i.yes]
            /\ UNCHANGED <<known, up, con, hv, local>>
            /\ Glance("choke", i.p, own, asked, mb)

\* p sends what it claims to be piece k: "good", "twist" (wrong content), "short"; or a block nobody can have asked for
Block(i) ==
    LET sure == i.k \in Piece /\ own[i.k] = {i.p}
        maybe == i.k \in Piece /\ i.p \in own[i.k]
        drop(f) == [p \in Peers |-> f[p] \ {i.k}]
        free == [own EXCEPT ![i.k] = @ \cup Nobody]
    IN /\ i.p \in con
       /\ UNCHANGED <<known, up, con, ch, hv>>
       /\ \/ /\ ~(sure /\ i.kind = "good")
             /\ local' = local
             /\ Glance("block", i.p, IF maybe THEN free ELSE own, asked, mb)
          \/ /\ maybe /\ i.kind = "good"
             /\ local' = local \cup {i.k}
             /\ Glance("block", i.p, [own EXCEPT ![i.k] = Nobody], drop(asked), drop(mb))

\* p sends nonsense about piece k until nobody takes it anymore, and does not read the requests this leads to
Stuff(i) == /\ i.p \in con /\ i.p \notin deaf
            /\ deaf' = deaf \cup {i.p}
            /\ own' = [k \in Piece |-> IF 0 \in own[k] /\ k \in hv[i.p] THEN own[k] \cup {i.p} ELSE own[k]]
            /\ UNCHANGED <<known, up, con, ch, hv, local, asked, mb>>
            /\ \E f \in BOOLEAN : out' = Obs("stuff", {}, None) @@ [full |-> f]

Gone(p) == /\ con' = con \ {p} /\ ch' = [ch EXCEPT ![p] = TRUE] /\ hv' = [hv EXCEPT ![p] = {}]
           /\ asked' = [asked EXCEPT ![p] = {}] /\ mb' = [mb EXCEPT ![p] = {}]
           /\ own' = [k \in Piece |-> IF p \in own[k] THEN (own[k] \ {p}) \cup Nobody ELSE own[k]]
           /\ UNCHANGED <<known, local>>
\* p closes its connection, and may not be reachable from then on
Lose(i) == /\ i.p \in con
           /\ up' = IF i.down THEN up \ {i.p} ELSE up
           /\ Gone(i.p) /\ out' = Obs("lose", {}, None)
Up(i) == /\ up' = up \cup {i.p} /\ UNCHANGED <<known, con, ch, hv, local, own, asked, mb>> /\ out' = Obs("up", {}, None)
Found(i) == /\ known' = known \cup {i.p} /\ UNCHANGED <<up, con, ch, hv, local, own, asked, mb>> /\ out' = Obs("found", {}, None)

----------------------------------------------------------------------------
(* Time passes: a second, or enough of them for every request to expire      *)
\* pieces p may have been chosen for now: all it serves that are in progress
Chosen(reqs) == LET act == UNION {mb[p] : p \in Peers} \cup UNION {reqs[p] : p \in Peers}
                IN [p \in Peers |-> IF Serving(p) THEN mb[p] \cup (act \cap hv[p]) ELSE mb[p]]

\* a piece nobody works on is asked of somebody who serves it and has room, as long as there is room
AllStarted(reqs, m) ==
    IF deaf # {} THEN TRUE \* what is asked of these cannot be seen
    ELSE
    \A k \in Piece \ (local \cup UNION {mb[p] : p \in Peers} \cup UNION {reqs[p] : p \in Peers}) :
        \/ Cardinality(UNION {m[p] : p \in Peers}) >= Active
        \/ \A p \in Peers : (Serving(p) /\ k \in hv[p]) => Cardinality(m[p]) >= Load

\* with time each peer that serves is of use, even if others never answer
AllUsed(reqs, m) == IF deaf # {} THEN \A p \in Peers \ deaf : (Serving(p) /\ hv[p] \ local # {}) => \E q \in Peers : reqs[q] \cap hv[p] # {} ELSE
    \/ Cardinality(UNION {m[p] : p \in Peers}) >= Active
    \/ \A p \in Peers : Serving(p) =>
         LET mine == {k \in hv[p] \ local : Cardinality({q \in Peers \ {p} : k \in m[q]}) < Share}
         IN Cardinality(UNION {reqs[q] : q \in Peers} \cap hv[p]) >= MinOf(Load, Cardinality(mine))

Tick(i) ==
    LET long == i.op = "wait"
        idle == known \ con
        room == Slots - Cardinality(con)
    IN \E A \in SomeNew(idle \cap up, MinOf(room, Cardinality(idle)) - Cardinality(idle \ up), room) :
       \E R \in SomeAsked({p \in Peers \ deaf : Serving(p)}, [p \in Peers |-> MayAsk(p)]) :
          LET m == Chosen(R)
              asked1 == [p \in Peers |-> asked[p] \cup R[p]]
              by(k) == {p \in Peers : k \in R[p]}
          IN /\ Cardinality(InProgress(asked1)) <= Active
             /\ AllStarted(R, m)
             /\ long => AllUsed(R, m)
             /\ con' = con \cup A /\ asked' = asked1 /\ mb' = m
             /\ own' = [k \in Piece |-> IF by(k) # {} THEN by(k)
                                        ELSE IF ~long /\ \E p \in Peers : own[k] = {p} /\ Serving(p) THEN own[k]
                                        ELSE own[k] \cup Nobody]
             /\ UNCHANGED <<known, up, ch, hv, local>>
             /\ out' = Obs(i.op, A, R)

Step(i) == /\ in' = i
           /\ i.op # "stuff" => deaf' = (IF i.op = "lose" THEN deaf \ {i.p} ELSE deaf)
           /\ CASE i.op = "have" -> Have(i)
                [] i.op = "bitfield" -> Bitfield(i)
                [] i.op = "idle" -> Idle(i)
                [] i.op = "choke" -> Choke(i)
                [] i.op = "block" -> Block(i)
                [] i.op = "stuff" -> Stuff(i)
                [] i.op = "lose" -> Lose(i)
                [] i.op = "up" -> Up(i)
                [] i.op = "found" -> Found(i)
                [] i.op \in {"tick", "wait"} -> Tick(i)

----------------------------------------------------------------------------
Inputs == {}
OnePeer == {1}
TwoPeers == {1, 2}
ThreePeers == {1, 2, 3}
ManyPeers == 1..12
Next == \/ \E p \in Peers :
           \/ \E k \in Piece : k \notin hv[p] /\ Step([op |-> "have", p |-> p, k |-> k, big |-> 0])
           \/ Style = "odd" /\ \E x \in {<<NP, 0>>, <<7, 0>>, <<8, 0>>, <<0, 1>>, <<65535, 65535>>} :
                 Step([op |-> "have", p |-> p, k |-> x[1], big |-> x[2]])
           \/ Style = "odd" /\ \E b \in {<<>>, <<0>>, <<255>>, <<63>>, <<128, 0>>} : Step([op |-> "bitfield", p |-> p, bytes |-> b])
           \/ Style = "odd" /\ \E w \in {"keepalive", "interested", "notinterested", "request", "cancel", "port", "unknown",
                                         "wildrequest", "wildcancel"} : Step([op |-> "idle", p |-> p, what |-> w])
           \/ Step([op |-> "choke", p |-> p, yes |-> ~ch[p]])
           \/ \E k \in Piece : \E w \in (IF p \in own[k] THEN {"good", "twist", "short"} ELSE {"good"}) :
                 Step([op |-> "block", p |-> p, k |-> k, kind |-> w])
           \/ Style = "odd" /\ Step([op |-> "block", p |-> p, k |-> NP, kind |-> "good"])
           \/ \E d \in BOOLEAN : Step([op |-> "lose", p |-> p, down |-> d])
           \/ p \notin up /\ Step([op |-> "up", p |-> p])
           \/ p \notin known /\ Step([op |-> "found", p |-> p])
        \/ Step([op |-> "tick"])
        \/ Step([op |-> "wait"])
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
(* Properties *)
PeerLimit == Cardinality(con) <= Slots
PieceLimit == Cardinality(InProgress(asked)) <= Active
\* nothing is asked of a peer that chokes, is gone, or did not announce it; nothing stored is asked for again
OnlyUseful == [][in'.op # "reset" => \A p \in Peers : \A n \in 1..Len(out'.reqs[p]) :
                   /\ p \in con' /\ ~ch'[p] /\ out'.reqs[p][n] \in hv'[p] \ local']_vars
\* what is stored stays stored, and only a right answer is stored
OnlyRight == [][in'.op # "reset" => /\ local \subseteq local'
                                    /\ local' # local => /\ in'.op = "block" /\ in'.kind = "good" /\ local' = local \cup {in'.k}
                                                         /\ in'.k \in asked[in'.p]]_vars
\* a known peer that can be reached is connected after a second if there is room for all
Replaced == [][(in'.op \in {"tick", "wait"} /\ Cardinality(known) <= Slots) => (known \cap up) \subseteq con']_vars
\* a peer that serves everything is never without work for long
Served == [][(in'.op = "wait" /\ NP < Active /\ Cardinality(Peers) <= Share) =>
               \A p \in con : (~ch[p] /\ hv[p] \ local # {}) => \E q \in Peers : asked'[q] \cap hv[p] # {}]_vars
=============================================================================
