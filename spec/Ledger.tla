------------------------------ MODULE Ledger ------------------------------
(* The ledger of pieces being downloaded, shared by all peers (C09).         *)
EXTENDS Conf

CONSTANTS BL,      \* BL[p + 1][b + 1]: length of block b of piece p
          Peers,   \* who takes blocks
          Dead,    \* a request older than Dead - 1 quanta has timed out
          MaxPieces

VARIABLES led, in, out
vars == <<led, in, out>>
View == led

\* geometries used by the configurations and by the checks
GeoTail == <<<<16384, 16384>>, <<100>>>>
GeoExact == <<<<16384>>, <<16384>>>>
GeoOdd == <<<<16384, 3616>>, <<16384, 1>>>>
GeoWide == [p \in 1..13 |-> IF p = 13 THEN <<16384, 7>> ELSE <<16384, 16384, 16384>>]
GeoBig == [p \in 1..3 |-> IF p = 3 THEN [b \in 1..20 |-> IF b = 20 THEN 5000 ELSE 16384]
                          ELSE [b \in 1..40 |-> IF b = 40 THEN 1000 ELSE 16384]]

NP == Len(BL)
Piece == 0..(NP - 1)
NB(p) == Len(BL[p + 1])
Block(p) == 0..(NB(p) - 1)
LenOf(p, b) == BL[p + 1][b + 1]

\* a block: [k |-> "free"], [k |-> "pend", by, age] or [k |-> "done", c]
Free == [k |-> "free", by |-> -1, age |-> 0, c |-> 0]
Pend(q) == [k |-> "pend", by |-> q, age |-> 0, c |-> 0]
Done(c) == [k |-> "done", by |-> -1, age |-> 0, c |-> c]
Absent == <<>>
New(p) == [b \in 1..NB(p) |-> Free]

In(l) == {p \in Piece : l[p] # Absent}
Blocks(l, ps) == {<<p, b>> : p \in ps, b \in 0..(Max({0} \cup {NB(x) : x \in ps}) - 1)} 
Cells(l, ps) == {x \in Blocks(l, ps \cap In(l)) : x[2] < NB(x[1])}
At(l, x) == l[x[1]][x[2] + 1]
FreeIn(l, ps) == {x \in Cells(l, ps) : At(l, x).k = "free"}
ExpiredIn(l, ps) == {x \in Cells(l, ps) : At(l, x).k = "pend" /\ At(l, x).age >= Dead}

\* for traces this is replaced by what was recorded
Selections(k, S) == kSubset(k, S)

Init == /\ led = [p \in Piece |-> Absent]
        /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == /\ led' = [p \in Piece |-> Absent]
         /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

Add(i) == LET ok == i.p \in Piece /\ (i.p \in In(led) \/ Cardinality(In(led)) < MaxPieces)
          IN /\ led' = IF ok /\ i.p \notin In(led) THEN [led EXCEPT ![i.p] = New(i.p)] ELSE led
             /\ out' = [op |-> "add", ok |-> ok]

\* hand out at most i.room blocks of i.ps to peer i.q: first what was never asked for or was
\* given back, then what timed out
Take(i) == LET ps == Range(i.ps)
               F == FreeIn(led, ps)
               E == ExpiredIn(led, ps)
               nf == MinOf(i.room, Cardinality(F))
               ne == MinOf(i.room - nf, Cardinality(E))
           IN \E f \in Selections(nf, F), e \in Selections(ne, E) :
                LET T == f \cup e
                IN /\ led' = [p \in Piece |->
                                IF led[p] = Absent THEN Absent
                                ELSE [b \in 1..NB(p) |-> IF <<p, b - 1>> \in T THEN Pend(i.q) ELSE led[p][b]]]
                   /\ out' = [op |-> "take",
                              got |-> SetToSortSeq({<<x[1], x[2], LenOf(x[1], x[2])>> : x \in T},
                                                   LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))]

Fits(i) == i.p \in In(led) /\ i.b \in Block(i.p) /\ LenOf(i.p, i.b) = i.len
Data(i) == IF ~Fits(i) THEN led' = led /\ out' = [op |-> "data", res |-> "failed", blocks |-> <<>>]
           ELSE IF led[i.p][i.b + 1].k = "done" THEN led' = led /\ out' = [op |-> "data", res |-> "failed", blocks |-> <<>>]
           ELSE LET np == [led[i.p] EXCEPT ![i.b + 1] = Done(i.c)]
                IN IF \A b \in 1..NB(i.p) : np[b].k = "done"
                   THEN /\ led' = [led EXCEPT ![i.p] = Absent]
                        /\ out' = [op |-> "data", res |-> "last",
                                   blocks |-> [b \in 1..NB(i.p) |-> <<LenOf(i.p, b - 1), np[b].c>>]]
                   ELSE /\ led' = [led EXCEPT ![i.p] = np]
                        /\ out' = [op |-> "data", res |-> "added", blocks |-> <<>>]

\* everything peer q was asked for is given back
Cancel(i) == /\ led' = [p \in Piece |-> IF led[p] = Absent THEN Absent
                          ELSE [b \in 1..NB(p) |-> IF led[p][b].k = "pend" /\ led[p][b].by = i.q THEN Free ELSE led[p][b]]]
             /\ out' = [op |-> "cancel"]

Tick(i) == /\ led' = [p \in Piece |-> IF led[p] = Absent THEN Absent
                        ELSE [b \in 1..NB(p) |-> IF led[p][b].k = "pend"
                                                 THEN [led[p][b] EXCEPT !.age = MinOf(Dead, @ + 1)] ELSE led[p][b]]]
           /\ out' = [op |-> "tick"]

Step(i) == /\ in' = i
           /\ CASE i.op = "add" -> Add(i)
                [] i.op = "take" -> Take(i)
                [] i.op = "data" -> Data(i)
                [] i.op = "cancel" -> Cancel(i)
                [] i.op = "tick" -> Tick(i)

Lens(p, b) == IF b \in Block(p) THEN {0, LenOf(p, b) - 1, LenOf(p, b), LenOf(p, b) + 1, 16384} ELSE {0, 16384, 100}
Contents == {0, 1}
Inputs == {[op |-> "add", p |-> p] : p \in 0..NP}
          \cup {[op |-> "take", q |-> q, ps |-> ps, room |-> r] :
                   q \in Peers, ps \in {<<p>> : p \in Piece} \cup {[p \in 1..NP |-> p - 1]}, r \in {0, 1, 4}}
          \cup UNION {{[op |-> "data", p |-> p, b |-> b, len |-> n, c |-> c] : n \in Lens(p, b)} :
                        p \in Piece, b \in 0..2, c \in Contents}
          \cup {[op |-> "data", p |-> NP, b |-> 0, len |-> 16384, c |-> 0]}
          \cup {[op |-> "cancel", q |-> q] : q \in Peers}
          \cup {[op |-> "tick"]}
Next == \E i \in Inputs : Step(i)
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
Taken == {<<x[1], x[2]>> : x \in Range(out'.got)}
\* at most one peer at a time, and never what was received
OneAtATime == [][out'.op = "take" => \A x \in Taken :
                    At(led, x).k = "free" \/ (At(led, x).k = "pend" /\ At(led, x).age >= Dead)]_vars
BudgetKept == [][out'.op = "take" => Len(out'.got) <= in'.room]_vars
BudgetUsed == [][out'.op = "take" =>
                    Len(out'.got) = MinOf(in'.room, Cardinality(FreeIn(led, Range(in'.ps)) \cup ExpiredIn(led, Range(in'.ps))))]_vars
CompleteOnlyWhenAllReceived ==
    [][(out'.op = "data" /\ out'.res = "last") =>
          /\ \A b \in Block(in'.p) : b = in'.b \/ led[in'.p][b + 1].k = "done"
          /\ \A b \in Block(in'.p) : out'.blocks[b + 1][1] = LenOf(in'.p, b)
          /\ in'.p \notin In(led')]_vars
RefusedChangesNothing == [][(out'.op = "data" /\ out'.res = "failed") => led' = led]_vars
ReceivedIsKept == [][in'.op # "reset" => \A x \in Cells(led, Piece) :
                        At(led, x).k = "done" => led'[x[1]] = Absent \/ At(led', x) = At(led, x)]_vars
NeverStuckComplete == \A p \in In(led) : \E b \in 1..NB(p) : led[p][b].k # "done"
LimitKept == Cardinality(In(led)) <= MaxPieces
=============================================================================
