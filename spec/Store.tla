------------------------------- MODULE Store --------------------------------
(* Piece storage (C01, C02).                                                  *)
(*                                                                            *)
(* Positions are units; the harness maps unit u to a byte offset with a       *)
(* strictly increasing function that keeps every block and piece boundary, so *)
(* files may begin and end anywhere, also one byte beside a boundary.         *)
(* A layout is [pl, lens, single]: units per piece, units per file.           *)
(* ver[u] is the version written to unit u last, 0 while it never was.        *)
(*                                                                            *)
(* Faults: lim limits how long a file may get (EFBIG), nofd takes away the    *)
(* possibility to open files (EMFILE).                                        *)
EXTENDS Conf

CONSTANTS Layouts, Versions, Mode
Unlimited == 1000

VARIABLES lay, ver, lim, nofd, in, out
vars == <<lay, ver, lim, nofd, in, out>>
View == <<lay, ver, lim, nofd>>

NoLayout == [pl |-> 1, lens |-> <<>>, single |-> FALSE]

SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
Total(l) == SumSeq(l.lens)
NPieces(l) == (Total(l) + l.pl - 1) \div l.pl
\* units (1-based) of piece p (0-based)
Units(l, p) == {u \in 1..Total(l) : (u - 1) \div l.pl = p}
Starts(l) == [k \in 1..Len(l.lens) |-> SumSeq(SubSeq(l.lens, 1, k - 1))]
FileOf(l, u) == CHOOSE k \in 1..Len(l.lens) : Starts(l)[k] < u /\ u <= Starts(l)[k] + l.lens[k]
OffsetOf(l, u) == u - 1 - Starts(l)[FileOf(l, u)]

\* what an independent reader finds in the files
Files(l, v) == [k \in 1..Len(l.lens) |-> SubSeq(v, Starts(l)[k] + 1, Starts(l)[k] + l.lens[k])]

Init == /\ lay = NoLayout /\ ver = <<>> /\ lim = Unlimited /\ nofd = FALSE
        /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == /\ lay' = NoLayout /\ ver' = <<>> /\ lim' = Unlimited /\ nofd' = FALSE
         /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

\* a torrent is opened for the first time
Open(i) == /\ lay = NoLayout
           /\ lay' = i.lay
           /\ ver' = [u \in 1..Total(i.lay) |-> 0]
           /\ UNCHANGED <<lim, nofd>>
           /\ out' = [op |-> "open", files |-> Files(lay', ver')]

\* the client is started again on what it has stored
Reopen(i) == /\ lay # NoLayout /\ ~nofd
             /\ UNCHANGED <<lay, ver, lim, nofd>>
             /\ out' = [op |-> "reopen", files |-> Files(lay, ver)]

\* shapes of the handed-over data: as long as the piece ("exact"), with something behind it ("padded"); too short, or cut into blocks of other sizes
GoodShapes == {"exact", "padded"}

Write(i) ==
    /\ lay # NoLayout
    /\ UNCHANGED <<lay, lim, nofd>>
    /\ LET us == Units(lay, i.p)
           stuck == {u \in us : OffsetOf(lay, u) >= lim}
           all(v) == [u \in DOMAIN ver |-> IF u \in us THEN v ELSE ver[u]]
           some(s, v) == [u \in DOMAIN ver |-> IF u \in s THEN v ELSE ver[u]]
           done(res) == out' = [op |-> "write", res |-> res, files |-> Files(lay, ver'), handles |-> "ok"]
           inside == i.p < NPieces(lay)
       IN  \/ /\ inside /\ i.shape \in GoodShapes \cup {"uneven"} /\ stuck = {}
              /\ ver' = all(i.v) /\ done("ok")
           \/ /\ ~inside \/ i.shape # "exact"
              /\ ~(inside /\ i.shape = "padded" /\ i.p = NPieces(lay) - 1)
              /\ ver' = ver /\ done("err")
           \* a failing file: an error; what of the piece has been written before that is open
           \/ /\ inside /\ i.shape \in GoodShapes \cup {"uneven"}
              /\ stuck # {} \/ nofd
              /\ \E s \in SUBSET (us \ stuck) : ver' = some(s, i.v)
              /\ done("err")

\* n units from unit i.at of piece i.p on, room: whether the buffer is long enough
Read(i) ==
    /\ lay # NoLayout
    /\ UNCHANGED <<lay, ver, lim, nofd>>
    /\ LET s == i.p * lay.pl + i.at
           within == i.p < NPieces(lay) /\ s + i.n <= Total(lay)
           inside == within /\ i.room
           want == IF within THEN SubSeq(ver, s + 1, s + i.n) ELSE <<>>
           err == out' = [op |-> "read", res |-> "err", data |-> <<>>, files |-> Files(lay, ver), handles |-> "ok"]
           ok == out' = [op |-> "read", res |-> "ok", data |-> want, files |-> Files(lay, ver), handles |-> "ok"]
       IN  \/ inside /\ ok
           \/ (~inside \/ nofd \/ 0 \in Range(want)) /\ err
           \* a block belongs to one piece: asking beyond it may be refused
           \/ (i.at + i.n > lay.pl) /\ err

\* numbers no torrent can have
Huge(i) == /\ lay # NoLayout
           /\ UNCHANGED <<lay, ver, lim, nofd>>
           /\ out' = [op |-> "huge", res |-> "err", files |-> Files(lay, ver)]

Limit(i) == /\ lay # NoLayout
            /\ lim' = i.at
            /\ UNCHANGED <<lay, ver, nofd>>
            /\ out' = [op |-> "limit"]

NoFds(i) == /\ lay # NoLayout
            /\ nofd' = i.on
            /\ UNCHANGED <<lay, ver, lim>>
            /\ out' = [op |-> "nofds"]

Step(i) == /\ in' = i
           /\ CASE i.op = "open" -> Open(i)
                [] i.op = "reopen" -> Reopen(i)
                [] i.op = "write" -> Write(i)
                [] i.op = "read" -> Read(i)
                [] i.op = "huge" -> Huge(i)
                [] i.op = "limit" -> Limit(i)
                [] i.op = "nofds" -> NoFds(i)

L(pl, lens) == [pl |-> pl, lens |-> lens, single |-> FALSE]
LensDef == {0, 1, 3, 4, 5, 8, 11}
Single == {[pl |-> pl, lens |-> <<n>>, single |-> TRUE] : pl \in {4, 8}, n \in {1, 3, 4, 5, 7, 8, 9, 11, 12}}
Multi == {L(4, s) : s \in UNION {[1..k -> LensDef] : k \in 1..3}}
LayoutsBig == Single \cup {l \in Multi \cup {L(8, s) : s \in [1..2 -> LensDef]} : Total(l) \in 1..12}
SmallLens == {0, 1, 3, 4, 5}
LayoutsGood == {l \in Single : Total(l) <= 9}
               \cup {l \in {L(4, s) : s \in UNION {[1..k -> SmallLens] : k \in 1..3}} : Total(l) \in 1..9}
               \cup {L(8, <<9>>), L(8, <<5, 0, 7>>), L(4, <<1, 1, 1, 1, 1>>), L(4, <<0, 0, 4, 0, 4, 0, 0>>)}
LayoutsFault == {[pl |-> 2, lens |-> <<3>>, single |-> TRUE], [pl |-> 2, lens |-> <<2>>, single |-> TRUE],
                 [pl |-> 2, lens |-> <<4>>, single |-> TRUE],
                 L(2, <<1, 0, 2>>), L(2, <<1, 2>>), L(2, <<3>>)}

Inputs ==
    LET ls == IF lay = NoLayout THEN 0 ELSE NPieces(lay)
    IN  IF lay = NoLayout THEN {[op |-> "open", lay |-> l] : l \in Layouts}
        ELSE CASE Mode = "good" ->
                    {[op |-> "reopen"]}
                    \cup {[op |-> "write", p |-> p, v |-> v, shape |-> s] : p \in 0..(ls - 1), v \in Versions, s \in GoodShapes}
                    \cup {r \in {[op |-> "read", p |-> p, at |-> a, n |-> n, room |-> TRUE] :
                                    p \in 0..(ls - 1), a \in {0, 1, 3}, n \in {1, 2, 4}} :
                             r.p * lay.pl + r.at + r.n <= Total(lay)}
               [] Mode = "faults" ->
                    {[op |-> "reopen"], [op |-> "nofds", on |-> TRUE], [op |-> "nofds", on |-> FALSE]}
                    \cup {[op |-> "limit", at |-> a] : a \in {0, 1, Unlimited}}
                    \cup {[op |-> "huge", kind |-> k] : k \in {"piece", "begin", "length", "write"}}
                    \cup {[op |-> "write", p |-> p, v |-> v, shape |-> s] :
                             p \in 0..ls, v \in Versions, s \in GoodShapes \cup {"short", "missing", "uneven"}}
                    \cup {[op |-> "read", p |-> p, at |-> a, n |-> n, room |-> r] :
                             p \in 0..ls, a \in {0, 1}, n \in {1, 2}, r \in BOOLEAN}

Next == \E i \in Inputs : Step(i)
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
(* C01 *)
OnlyThisPiece == [][in'.op = "write" => \A u \in DOMAIN ver : ver'[u] # ver[u] => (u - 1) \div lay.pl = in'.p]_vars
WrittenIsThere == [][(in'.op = "write" /\ out'.res = "ok") => \A u \in Units(lay, in'.p) : ver'[u] = in'.v]_vars
ReadIsLastWritten == [][(in'.op = "read" /\ out'.res = "ok") =>
                          /\ Len(out'.data) = in'.n
                          /\ \A k \in 1..in'.n : out'.data[k] = ver[in'.p * lay.pl + in'.at + k]]_vars
(* C02 *)
OnlyWritesWrite == [][in'.op \notin {"write", "open", "reset"} => ver' = ver]_vars
OutsideIsAnError == [][(in'.op \in {"read", "write"} /\ in'.p >= NPieces(lay)) => out'.res = "err"]_vars
FailureIsReported == [][(in'.op = "write" /\ \E u \in Units(lay, in'.p) : ver'[u] # in'.v) => out'.res = "err"]_vars
=============================================================================
