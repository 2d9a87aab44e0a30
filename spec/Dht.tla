--------------------------------- MODULE Dht ---------------------------------
(* The client as a DHT node (C17-C21): what it asks other nodes and when,     *)
(* what it makes of their answers, how it answers theirs, whom it announces   *)
(* itself to.  Far nodes are 1..N: node i has id i, whose distance to the own *)
(* id and to the served torrent grows with i.  Time is in half seconds.       *)
EXTENDS Bencode

CONSTANTS N,         \* far nodes
          Twins,     \* TRUE: nodes N-1 and N share an IP address
          Loaded,    \* nodes of the saved table
          Pool,      \* peers 1..Pool of the served torrent are known from the start
          Style,     \* what happens in the exhaustive instance
          MaxTime    \* and until when

VARIABLES s, in, out
vars == <<s, in, out>>

Nodes == 1..N
Kinds == <<"ping", "find", "get", "ann">>
Kind == {"ping", "find", "get", "ann"}
Ip(a) == IF Twins /\ a = N THEN a - 1 ELSE a

\* growing periods: of the refresh, of the search
R(n) == LET t == <<6, 7, 7, 9, 12, 16, 24, 34, 47, 65, 86, 113, 145, 182, 226, 276, 334>> IN IF n < Len(t) THEN t[n + 1] ELSE 400
F(n) == LET t == <<14, 15, 15, 16, 18, 22, 30, 41, 58, 82, 115, 157, 211>> IN IF n < Len(t) THEN t[n + 1] ELSE 240
Window == 6          \* a search ends when nobody answered for so long
Timeout == 120       \* no answer is awaited longer
MostValues == 146    \* peers in one answer
High == 512          \* once a search knows so many nodes,
Low == 128           \* it goes on with the best of them
Enough == 128        \* and ends if so many peers are known
Top == 16            \* nodes that are told where we listen

----------------------------------------------------------------------------
(* s.tab[i]: the address at which node i is known (0: it is not), s.good: the  *)
(* nodes that answered; s.pend[a][k]: the two newest queries of kind k to a,    *)
(* the newest first, with their age (Done: completed); s.rf, s.fe: timers of   *)
(* refresh and search; s.map[a]: what the search knows about the node at a     *)
(* (no: nothing, far: it dropped it, unknown: it asked it, less, has: it        *)
(* answered without, with peers);                                              *)
(* s.tk[a]: its token; s.mail: answers the search did not look at yet;         *)
(* s.pool: peers of the served torrent; s.store: those of another one;         *)
(* s.tok: nodes that were given a token                                        *)
Done == -1
NoPend == [k \in Kind |-> <<>>]
Quiet == [find |-> 0, get |-> 0, ping |-> 0, ann |-> <<>>, resp |-> <<>>, odd |-> 0]
Silence == [a \in Nodes |-> Quiet]

\* r: a state together with what was sent on the way to it
Ask(r, a, k) == [r EXCEPT !.s.pend[a][k] = <<0>> \o (IF Len(@) > 1 THEN SubSeq(@, 1, 1) ELSE @)]
Ping(r, a) == [Ask(r, a, "ping") EXCEPT !.sent[a].ping = @ + 1]
Find(r, a) == [Ask(r, a, "find") EXCEPT !.sent[a].find = @ + 1]
Get(r, a) == [Ask(r, a, "get") EXCEPT !.sent[a].get = @ + 1]
Ann(r, a, t) == [Ask(r, a, "ann") EXCEPT !.sent[a].ann = Append(@, t)]
Answer(r, a, m) == [r EXCEPT !.sent[a].resp = Append(@, m)]
Each(r, S, Op(_, _)) == FoldSeq(LAMBDA a, x : Op(x, a), r, Sorted(S))

Start(loaded, pool) ==
    LET s0 == [tab |-> [i \in Nodes |-> IF i \in loaded THEN i ELSE 0], good |-> {}, pool |-> 1..pool, store |-> {},
               tok |-> {}, pend |-> [a \in Nodes |-> NoPend], rf |-> [left |-> R(0), n |-> 1],
               fe |-> [ph |-> "off", left |-> 0, n |-> 0], map |-> [a \in Nodes |-> "no"], tk |-> [a \in Nodes |-> 0],
               mail |-> <<>>, time |-> 0, run |-> TRUE]
    IN Each([s |-> s0, sent |-> Silence], loaded, Ping).s

PoolView(P) == IF Cardinality(P) > 20 THEN <<-Cardinality(P)>> ELSE Sorted(P)
NodesView(st, I) == Sorted({1000 * i + st.tab[i] : i \in I})
Known(st) == {i \in Nodes : st.tab[i] # 0}
View == [s EXCEPT !.good = Sorted(@), !.pool = PoolView(@), !.store = Sorted(@), !.tok = Sorted(@)]

Init == s = Start(Loaded, Pool) /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == s' = Start(Loaded, Pool) /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

----------------------------------------------------------------------------
(* The search for peers                                                       *)
\* it begins once a node is known to be there, with those known then
Begin(r) == IF r.s.fe.ph # "off" \/ r.s.good = {} THEN r
            ELSE [r EXCEPT !.s.fe = [ph |-> "sleep", left |-> F(0), n |-> 1],
                           !.s.map = [a \in Nodes |-> IF \E i \in r.s.good : r.s.tab[i] = a THEN "unknown" ELSE "no"]]
In(st) == {a \in Nodes : st.map[a] \notin {"no", "far"}}
\* those with peers first, then those without, then those that did not answer, each group by distance
Best(st) == Sorted({a \in Nodes : st.map[a] = "has"}) \o Sorted({a \in Nodes : st.map[a] = "less"}) \o Sorted({a \in Nodes : st.map[a] = "unknown"})
FirstOf(q, n) == IF Len(q) > n THEN SubSeq(q, 1, n) ELSE q
\* nodes are told where we listen, and the search is over
Announce(r) == LET told == Range(FirstOf(SelectSeq(Best(r.s), LAMBDA a : r.s.map[a] # "unknown"), Top))
                   r1 == Each(r, told, LAMBDA x, a : Ann(x, a, x.s.tk[a]))
               IN [r1 EXCEPT !.s.fe = [ph |-> "sleep", left |-> F(r.s.fe.n), n |-> r.s.fe.n + 1]]

Learn(r, a) == IF r.s.map[a] # "no" THEN r ELSE [Get(r, a) EXCEPT !.s.map[a] = "unknown"]
Prune(r) == IF Cardinality(In(r.s)) < High THEN r
            ELSE LET keep == Range(FirstOf(Best(r.s), Low))
                     r1 == [r EXCEPT !.s.map = [a \in Nodes |-> IF a \in In(r.s) \ keep THEN "far" ELSE @[a]]]
                 IN IF Cardinality(r.s.pool) >= Enough THEN Announce(r1) ELSE r1
\* an answer m from a node, to the search
Use(r, m) ==
    LET r1 == [r EXCEPT !.s.fe.left = Window]
    IN CASE m.c = "touch" \/ m.a \notin In(r.s) -> r1
         [] m.c = "gnodes" -> Prune(Each([r1 EXCEPT !.s.map[m.a] = "less", !.s.tk[m.a] = m.tk], {m.nodes[k] % 1000 : k \in 1..Len(m.nodes)}, Learn))
         [] OTHER -> Prune([r1 EXCEPT !.s.map[m.a] = "has", !.s.tk[m.a] = m.tk, !.s.pool = @ \cup {m.values[k] : k \in 1..Len(m.values)}])
Hear(r, m) == IF r.s.fe.ph = "collect" THEN Use(r, m) ELSE [r EXCEPT !.s.mail = Append(@, m)]

\* whoever was known at the end of the last search is asked again; answers that came meanwhile are looked at
Round(r) == LET r1 == Each(r, In(r.s), Get)
                r2 == [r1 EXCEPT !.s.map = [a \in Nodes |-> IF @[a] = "far" THEN "no" ELSE @[a]], !.s.mail = <<>>,
                                 !.s.fe = [@ EXCEPT !.ph = "collect", !.left = Window]]
            IN FoldSeq(LAMBDA m, x : Hear(x, m), r2, r1.s.mail)

(* The table                                                                  *)
Touch(r, i, a) == Begin([r EXCEPT !.s.tab[i] = IF @ = 0 THEN a ELSE @, !.s.good = @ \cup {i}])
Refresh(r) == IF r.s.good = {} THEN r ELSE Find(r, r.s.tab[Min(r.s.good)])
\* nodes of an answer that are not in the table are pinged, as often as they are listed
Explore(r, nodes) == FoldSeq(LAMBDA x, y : IF r.s.tab[x \div 1000] = 0 THEN Ping(y, x % 1000) ELSE y, r, nodes)

----------------------------------------------------------------------------
(* Time                                                                       *)
Older(p) == [k \in Kind |-> [j \in 1..Len(p[k]) |-> IF p[k][j] = Done \/ p[k][j] + 1 >= Timeout THEN Done ELSE p[k][j] + 1]]
Unit(r) ==
    LET r1 == [r EXCEPT !.s.pend = [a \in Nodes |-> Older(@[a])], !.s.rf.left = @ - 1, !.s.time = @ + 1,
                        !.s.fe.left = IF r.s.fe.ph = "off" THEN 0 ELSE @ - 1]
        r2 == IF r1.s.rf.left = 0 THEN [Refresh(r1) EXCEPT !.s.rf = [left |-> R(@.n), n |-> @.n + 1]] ELSE r1
    IN CASE r2.s.fe.ph = "sleep" /\ r2.s.fe.left = 0 -> Round(r2)
         [] r2.s.fe.ph = "collect" /\ r2.s.fe.left = 0 -> Announce(r2)
         [] OTHER -> r2
RECURSIVE Adv(_, _)
Adv(r, n) == IF n = 0 THEN r ELSE Adv(Unit(r), n - 1)
\* until something happens
Next1(st) == IF st.fe.ph = "off" THEN st.rf.left ELSE MinOf(st.rf.left, st.fe.left)

----------------------------------------------------------------------------
(* Answers of far nodes. i.kind, i.to, i.nth name the query that is claimed to *)
(* be answered, nth = 0: none; i.c is the shape of the answer                  *)
Fits(k, c) == CASE c = "error" -> TRUE
                [] k \in {"ping", "ann"} -> c = "id"
                [] k = "find" -> c = "nodes"
                [] k = "get" -> c \in {"gnodes", "gvalues", "gboth"}
Awaited(st, i) == /\ i.nth \in 1..Len(st.pend[i.to][i.kind])
                  /\ st.pend[i.to][i.kind][i.nth] # Done
                  /\ i.from = i.to /\ Fits(i.kind, i.c)
Response(r, i) ==
    IF ~Awaited(r.s, i) THEN r
    ELSE LET r1 == [r EXCEPT !.s.pend[i.to][i.kind][i.nth] = Done]
         IN CASE i.c = "error" -> r1
              [] i.kind = "ping" -> Touch(r1, i.id, i.from)
              [] i.kind = "find" -> Explore(Touch(r1, i.id, i.from), i.nodes)
              [] i.kind = "ann" -> Hear(r1, [c |-> "touch", a |-> i.from])
              [] i.kind = "get" /\ i.c = "gnodes" -> Hear(r1, [c |-> i.c, a |-> i.from, tk |-> i.tk, nodes |-> i.nodes])
              [] OTHER -> Hear(r1, [c |-> "gvalues", a |-> i.from, tk |-> i.tk, values |-> i.values])

\* all of i.who answer the search with nodes nobody can reach, while a stranger asks more than can be answered
Storm(r, i) == FoldSeq(LAMBDA a, x : Response(x, [from |-> a, to |-> a, kind |-> "get", nth |-> 1, c |-> "gnodes", id |-> a,
                                                  nodes |-> <<>>, values |-> <<>>, tk |-> 1]), r, i.who)

(* Queries of far nodes, answered by the arguments they carry                  *)
Msg(k, nodes, values, tok) == [k |-> k, nodes |-> nodes, n |-> MinOf(Cardinality(values), MostValues),
                               values |-> IF Cardinality(values) > 20 THEN <<>> ELSE Sorted(values), tok |-> tok]
Closest(st, target) == IF target \in Known(st) THEN NodesView(st, {target}) ELSE NodesView(st, st.good)
Query(r, a, m) ==
    LET has(f) == f \in DOMAIN m
        peer == 1000 * Ip(a) + m.port
        of(h) == CASE h = "T" -> r.s.pool [] h = "U" -> r.s.store [] OTHER -> {}
    IN CASE has("hash") /\ has("token") /\ has("port") ->
                IF m.token \in r.s.tok /\ Ip(m.token) = Ip(a)
                THEN Answer(IF m.hash = "T" THEN [r EXCEPT !.s.pool = @ \cup {peer}] ELSE [r EXCEPT !.s.store = @ \cup {peer}],
                            a, Msg("id", <<>>, {}, 0))
                ELSE r
         [] has("target") -> Answer(r, a, Msg("nodes", Closest(r.s, m.target), {}, 0))
         [] has("hash") -> Answer([r EXCEPT !.s.tok = @ \cup {a}], a,
                                  IF of(m.hash) # {} THEN Msg("values", <<>>, of(m.hash), 1)
                                  ELSE Msg("nodes", NodesView(r.s, r.s.good), {}, 1))
         [] OTHER -> Answer(r, a, Msg("id", <<>>, {}, 0))

----------------------------------------------------------------------------
(* Datagrams, byte by byte                                                    *)
IsId(v) == IsS(v) /\ Len(v.s) = 20
Own == [k \in 1..20 |-> 80]
IdOf(i) == <<IF i < 16 THEN 80 + i ELSE 0>> \o [k \in 1..19 |-> i]
HashT == <<208>> \o [k \in 1..19 |-> 7]
HashU == <<208>> \o [k \in 1..19 |-> 9]
AddrOf(a) == <<127, 0, 0, 10 + Ip(a)>> \o <<(5000 + a) \div 256, (5000 + a) % 256>>
Num1(v) == Num(v.i.digits)
PortOk(v) == IsI(v) /\ ~v.i.neg /\ Small(v.i.digits) /\ Num1(v) <= 65535
NodeList(b) == [k \in 1..(Len(b) \div 26) |-> SubSeq(b, 26 * k - 25, 26 * k)]
First(S) == IF S = {} THEN 0 ELSE Min(S)
NodeNo(c) == 1000 * First({i \in Nodes : SubSeq(c, 1, 20) = IdOf(i)}) + First({a \in Nodes : SubSeq(c, 21, 26) = AddrOf(a)})
HashNo(h) == CASE h = HashT -> "T" [] h = HashU -> "U" [] OTHER -> "V"
Tid == B("AAAAA")

\* what the arguments of a query say; [bad] if nothing
ArgsOf(a) ==
    LET has(f) == Has(a, B(f))
        isid(f) == has(f) /\ IsId(At(a, B(f)))
    IN CASE ~(IsD(a) /\ ~Twice(a) /\ isid("id")) -> [bad |-> TRUE]
         [] isid("info_hash") /\ has("port") /\ PortOk(At(a, B("port"))) /\ has("token") /\ IsS(At(a, B("token"))) ->
              [hash |-> HashNo(At(a, B("info_hash")).s), port |-> Num1(At(a, B("port"))) - 7000, token |-> -1]
         [] isid("target") -> [target |-> LET t == At(a, B("target")).s IN IF \E i \in Nodes : IdOf(i) = t THEN CHOOSE i \in Nodes : IdOf(i) = t ELSE 99]
         [] isid("info_hash") -> [hash |-> HashNo(At(a, B("info_hash")).s)]
         [] OTHER -> [q |-> "ping"]
\* what a response says
BodyOf(a) ==
    LET has(f) == Has(a, B(f))
        tokened == has("token") /\ IsS(At(a, B("token")))
        noded == has("nodes") /\ IsS(At(a, B("nodes"))) /\ Len(At(a, B("nodes")).s) % 26 = 0
        valued == has("values") /\ IsL(At(a, B("values"))) /\ \A k \in 1..Len(At(a, B("values")).l) :
                      IsS(At(a, B("values")).l[k]) /\ Len(At(a, B("values")).l[k].s) = 6
        id == At(a, B("id")).s
        token == At(a, B("token")).s
        common == [id |-> First({i \in Nodes : IdOf(i) = id}), nodes |-> <<>>, values |-> <<>>,
                   tk |-> IF tokened /\ Len(token) = 3 /\ SubSeq(token, 1, 2) = B("tk") THEN token[3] ELSE -1]
        nodes == NodeList(At(a, B("nodes")).s)
    IN CASE ~(IsD(a) /\ ~Twice(a) /\ has("id") /\ IsId(At(a, B("id")))) -> [bad |-> TRUE]
         [] tokened /\ valued -> [c |-> "gvalues", values |-> [k \in 1..Len(At(a, B("values")).l) |-> At(a, B("values")).l[k].s[4]]] @@ common
         [] tokened /\ noded -> [c |-> "gnodes", nodes |-> [k \in 1..Len(nodes) |-> NodeNo(nodes[k])]] @@ common
         [] noded -> [c |-> "nodes", nodes |-> [k \in 1..Len(nodes) |-> NodeNo(nodes[k])]] @@ common
         [] OTHER -> [c |-> "id"] @@ common

CodeOk(x) == (IsS(x) /\ Utf8(x.s)) \/ (IsI(x) /\ ~x.i.neg /\ Small(x.i.digits))
\* "q": a query, "r": a response, "e": an error, otherwise no message at all
MessageOf(b) ==
    LET p == Parse(b, 1)
        v == p.v
        has(f) == Has(v, B(f))
    IN IF ~p.ok THEN [y |-> "none"]
       ELSE IF ~(IsD(v) /\ ~Twice(v) /\ has("t") /\ IsS(At(v, B("t"))) /\ has("y") /\ IsS(At(v, B("y")))) THEN [y |-> "none"]
       ELSE CASE At(v, B("y")).s = B("q") /\ has("q") /\ has("a") /\ IsS(At(v, B("q"))) /\ Utf8(At(v, B("q")).s) /\ "bad" \notin DOMAIN ArgsOf(At(v, B("a"))) ->
                  [y |-> "q", t |-> At(v, B("t")).s, m |-> ArgsOf(At(v, B("a")))]
              [] At(v, B("y")).s = B("r") /\ has("r") /\ "bad" \notin DOMAIN BodyOf(At(v, B("r"))) ->
                  [y |-> "r", t |-> At(v, B("t")).s, m |-> BodyOf(At(v, B("r")))]
              [] At(v, B("y")).s = B("e") /\ has("e") /\ IsL(At(v, B("e"))) /\ \A k \in 1..Len(At(v, B("e")).l) : CodeOk(At(v, B("e")).l[k]) ->
                  [y |-> "e", t |-> At(v, B("t")).s, m |-> [c |-> "error"]]
              [] OTHER -> [y |-> "none"]

\* i.b: a datagram from node i.from; where it says AAAAA, it bears the transaction id of the query named by i
Datagram(r, i) ==
    LET m == MessageOf(i.bytes)
    IN CASE m.y = "q" -> Query(r, i.from, m.m)
         [] m.y \in {"r", "e"} /\ m.t = Tid /\ i.kind # "none" -> Response(r, m.m @@ [from |-> i.from, to |-> i.to, kind |-> i.kind, nth |-> i.nth])
         [] OTHER -> r

----------------------------------------------------------------------------
\* datagrams whose form is not the prescribed one whose numbers are too large, or that are too long,
\* may be taken for what they seem to say, or not at all
RECURSIVE Huge(_)
Huge(v) == CASE IsI(v) -> Len(v.i.digits) > 18
             [] IsL(v) -> \E k \in 1..Len(v.l) : Huge(v.l[k])
             [] IsD(v) -> \E k \in 1..Len(v.d) : Huge(v.d[k][2])
             [] OTHER -> FALSE
Unclear(b) == Len(b) > 1400 \/ ~Parse(b, 1).ok \/ Huge(Parse(b, 1).v) \/ ~Parse(b, 1).canon \/ Parse(b, 1).n # Len(b) + 1 \/ Parse(b, 1).depth > 8
Run(i) == LET r == [s |-> s, sent |-> Silence]
          IN CASE i.op = "q" -> Query(r, i.from, i.m)
               [] i.op = "r" -> Response(r, i)
               [] i.op = "storm" -> Storm(r, i)
               [] i.op = "found" -> Ping(r, i.p)
               [] i.op = "adv" -> Adv(r, i.n)
               [] i.op = "bytes" -> Datagram(r, i)
               [] i.op = "stop" -> [r EXCEPT !.s.run = FALSE]
Step(i) == /\ s.run
           /\ in' = i
           /\ \E r \in {Run(i)} \cup (IF i.op = "bytes" /\ Unclear(i.bytes) THEN {[s |-> s, sent |-> Silence]} ELSE {}) :
                 /\ s' = r.s
                 /\ out' = IF i.op = "stop" THEN [op |-> "stop", saved |-> NodesView(r.s, Known(r.s))]
                           ELSE [op |-> i.op, sent |-> [a \in Nodes |-> r.sent[a]], pool |-> PoolView(r.s.pool),
                                 tab |-> NodesView(r.s, r.s.good)]

----------------------------------------------------------------------------
Inputs == {}
NoNodes == {}
OneNode == {1}
TwoNodes == {1, 2}
AllNodes == 1..N
SomeNodes == {1, 3}

Resp(from, to, kind, nth, c, id, nodes, values, tk) ==
    [op |-> "r", from |-> from, to |-> to, kind |-> kind, nth |-> nth, c |-> c, id |-> id, nodes |-> nodes, values |-> values, tk |-> tk]
Q(from, tl, m) == [op |-> "q", from |-> from, tl |-> tl, m |-> m]
Pong(i) == Resp(i, i, "ping", 1, "id", i, <<>>, <<>>, 0)

Asks == [q : {"ping"}] \cup [q : {"find_node"}, target : Nodes \cup {0, 99}] \cup [q : {"get_peers"}, hash : {"T", "U"}]
        \cup [q : {"vote"}, more : {TRUE}] \cup [q : {"vote"}, hash : {"T"}] \cup [q : {"find_node"}, target : {99}, more : {TRUE}]
        \cup [q : {"get_peers"}, hash : {"U"}, more : {TRUE}]
Tells == [q : {"announce_peer"}, hash : {"T", "U"}, port : {1}, token : {-1, 0} \cup Nodes]
         \cup [q : {"announce_peer"}, hash : {"T"}, port : {1}] \cup [q : {"announce_peer"}, hash : {"T"}, token : {2}]
Serve == \/ \E a \in 2..N, m \in Asks \cup Tells : Step(Q(a, 2, m))
         \/ \E m \in Asks : Step(Q(2, 20, m))
         \/ Step(Pong(1))
         \/ Step([op |-> "stop"])

\* every answer to every query, right or wrong
Some == <<1000 * N + N>>
Match == \/ \E f, t \in Nodes, k \in Kind, nth \in 0..2, c \in {"id", "nodes", "gnodes", "gvalues", "gboth", "error"} :
                /\ nth <= Len(s.pend[t][k])
                /\ nth = 0 => f = t
                /\ (f # t \/ nth # 1) => c = (CASE k \in {"ping", "ann"} -> "id" [] k = "find" -> "nodes" [] OTHER -> "gvalues")
                /\ Step(Resp(f, t, k, nth, c, f, Some, <<1>>, 3))
         \/ \E p \in Nodes : s.pend[p]["ping"] = <<>> /\ Step([op |-> "found", p |-> p])
         \/ s.time + Next1(s) <= MaxTime /\ Step([op |-> "adv", n |-> Next1(s)])
         \/ s.time + 120 <= MaxTime /\ Step([op |-> "adv", n |-> 120])

\* honest answers in every order, or none
Search == \/ \E t \in Nodes, c \in {"gnodes", "gvalues"}, x \in Nodes, y \in Nodes :
                /\ s.pend[t]["get"] # <<>>
                /\ s.pend[t]["get"][1] # Done
                /\ c = "gvalues" => x = 1 /\ y \in 1..2
                /\ c = "gnodes" => x <= y
                /\ Step(Resp(t, t, "get", 1, c, t, IF c = "gnodes" THEN <<1001 * x, 1001 * y>> ELSE <<>>, IF c = "gvalues" THEN <<y>> ELSE <<>>, t))
          \/ \E t \in Nodes, k \in {"ping", "ann"} : s.pend[t][k] # <<>> /\ s.pend[t][k][1] # Done /\ Step(Resp(t, t, k, 1, "id", t, <<>>, <<>>, 0))
          \/ \E t \in Nodes : s.pend[t]["find"] # <<>> /\ s.pend[t]["find"][1] # Done
                              /\ Step(Resp(t, t, "find", 1, "nodes", t, <<1001 * ((t % N) + 1), 1001>>, <<>>, 0))
          \/ s.time + Next1(s) <= MaxTime /\ Step([op |-> "adv", n |-> Next1(s)])

\* every message with one thing wrong
VNodes(is) == VS(Flat([k \in 1..Len(is) |-> IdOf(is[k]) \o AddrOf(is[k])]))
VPeer(p) == VS(<<10, 0, 0, p, 27, 88>>)
VQuery(q, a) == VD(<< <<B("a"), VD(a)>>, <<B("q"), VS(B(q))>>, <<B("t"), VS(B("BB"))>>, <<B("y"), VS(B("q"))>> >>)
VResp(r) == VD(<< <<B("r"), VD(r)>>, <<B("t"), VS(Tid)>>, <<B("y"), VS(B("r"))>> >>)
Id1 == <<B("id"), VS(IdOf(1))>>
Entry2(k, v) == <<B(k), v>>
QueryBases == {VQuery("ping", <<Id1>>),
               VQuery("find_node", <<Id1, Entry2("target", VS(IdOf(2)))>>),
               VQuery("get_peers", <<Id1, Entry2("info_hash", VS(HashT))>>),
               VQuery("announce_peer", <<Id1, Entry2("info_hash", VS(HashT)), Entry2("port", VI(7001)), Entry2("token", VS(B("tttt")))>>)}
ResponseBases == {VResp(<<Id1>>),
                  VResp(<<Id1, Entry2("nodes", VNodes(<<2, 1>>))>>),
                  VResp(<<Id1, Entry2("nodes", VNodes(<<2>>)), Entry2("token", VS(B("tk") \o <<3>>))>>),
                  VResp(<<Id1, Entry2("token", VS(B("tk") \o <<3>>)), Entry2("values", VL(<<VPeer(1), VPeer(2)>>))>>),
                  VD(<< <<B("e"), VL(<<VI(201), VS(B("no"))>>)>>, <<B("t"), VS(Tid)>>, <<B("y"), VS(B("e"))>> >>)}
Wrong(v) == {VI(5), VNeg(3), VS(<<>>), VS(<<255, 120>>), VL(<<>>), VL(<<VI(1)>>), VD(<<>>)}
            \cup (IF IsS(v) /\ v.s # <<>> THEN {VS(Tail(v.s)), VS(v.s \o <<0>>), VL(<<v>>)} ELSE {})
            \cup (IF IsI(v) THEN {VI(65536), VI(0), VI(70000)} ELSE {})
RECURSIVE Variants(_)
But(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Variants(v) ==
    Wrong(v)
    \cup (IF IsD(v) THEN {VD(But(v.d, k)) : k \in 1..Len(v.d)}
                        \cup UNION {{VD([v.d EXCEPT ![k] = <<@[1], x>>]) : x \in Variants(v.d[k][2])} : k \in 1..Len(v.d)}
                        \cup {VD(<< <<B("0"), VL(<<VI(1), VS(<<0>>)>>)>> >> \o v.d), VD(v.d \o << <<B("zz"), VD(<<>>)>> >>)}
                        \cup {VD(v.d \o <<v.d[k]>>) : k \in 1..Len(v.d)}
          ELSE {})
    \cup (IF IsL(v) THEN {VL(But(v.l, k)) : k \in 1..Len(v.l)}
                        \cup UNION {{VL([v.l EXCEPT ![k] = x]) : x \in Variants(v.l[k])} : k \in 1..Len(v.l)}
          ELSE {})
Cut(b) == {SubSeq(b, 1, k) : k \in 0..(Len(b) - 1)}
RECURSIVE Many(_, _)
Many(b, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN b ELSE LET h == Many(b, n \div 2) IN h \o h \o (IF n % 2 = 1 THEN b ELSE <<>>)
Shapeless == {<<>>, <<0>>, B("i5e"), B("le"), B("de"), B("5:AAAAA"), B("d1:t"), Many(<<100>>, 1200), Many(<<108>>, 1200),
              Many(B("l"), 1200) \o Many(B("e"), 1200), Many(<<0>>, 1300), Many(<<57>>, 40), B("99999999999999999999:a"),
              B("d1:ti99999999999999999999999ee"), Many(B("d1:a"), 600) \o Many(B("e"), 600)}
             \cup {Enc(b) \o x : b \in QueryBases, x \in {<<0>>, B("e"), B("d1:t")}}
             \cup {Enc(VQuery("ping", <<Id1, Entry2("z", x)>>)) : x \in {VS(Many(<<120>>, 1000)), VS(Many(<<255>>, 2000)), VS(Many(<<120>>, 5000))}}
             \cup {Enc(VQuery("ping", <<Id1, Entry2("z", VL(<<x>>))>>)) : x \in {VBig(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>)}}
             \cup {LET e == Enc(VQuery("ping", <<Id1>>)) IN SubSeq(e, 1, 32) \o B("1:z") \o Many(B("l"), n) \o Many(B("e"), n) \o SubSeq(e, 33, Len(e)) : n \in {3, 200, 1200}}
QueryBytes == Shapeless \cup UNION {Cut(Enc(b)) \cup {Enc(x) : x \in Variants(b)} \cup {Enc(b)} : b \in QueryBases}
ResponseBytes == UNION {Cut(Enc(b)) \cup {Enc(x) : x \in Variants(b)} \cup {Enc(b)} : b \in ResponseBases}
Bytes(from, to, kind, nth, b) == [op |-> "bytes", from |-> from, to |-> to, kind |-> kind, nth |-> nth, bytes |-> b]
Untouched == s.pool = 1..Pool /\ s.store = {} /\ s.tok = {} /\ s.mail = <<>> /\ s.pend[N] = NoPend /\ s.tk = [a \in Nodes |-> 0]
             /\ \A a \in Nodes : s.map[a] \in {"no", "unknown"}
Malformed == \/ s.time = 0 /\ Untouched /\ \E b \in QueryBytes \cup ResponseBytes : Step(Bytes(1, 1, "none", 0, b))
             \/ Untouched /\ \E k \in Kind, b \in ResponseBytes :
                   s.pend[1][k] # <<>> /\ s.pend[1][k][1] # Done /\ Step(Bytes(1, 1, k, 1, b))
             \/ Step(Pong(1))
             \/ Step(Q(1, 2, [q |-> "ping"]))
             \/ s.time + Next1(s) <= MaxTime /\ Step([op |-> "adv", n |-> Next1(s)])

Next == CASE Style = "serve" -> Serve
          [] Style = "match" -> Match
          [] Style = "search" -> Search
          [] Style = "malformed" -> Malformed
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
(* Properties *)
Events == in'.op \notin {"init", "reset"}
Queries(o) == FoldSet(LAMBDA a, n : n + o.sent[a].find + o.sent[a].get + o.sent[a].ping + Len(o.sent[a].ann), 0, Nodes)
Responses(o) == FoldSet(LAMBDA a, n : n + Len(o.sent[a].resp), 0, Nodes)
\* C17: what is not awaited changes nothing, and what was answered is awaited no more
OnlyAwaited == [][in'.op = "r" => IF Awaited(s, in') THEN s'.pend[in'.to][in'.kind] # s.pend[in'.to][in'.kind]
                                  ELSE s' = s /\ Queries(out') = 0]_vars
\* C18: only valid announcements are stored and acknowledged
OnlyWithToken == [][(in'.op = "q" /\ (s'.pool # s.pool \/ s'.store # s.store)) =>
                      /\ in'.m.token \in s.tok /\ Ip(in'.m.token) = Ip(in'.from)
                      /\ out'.sent[in'.from].resp # <<>>]_vars
\* C19: one answer to the asker; none to a refused announcement; nothing else is sent
OneAnswer == [][in'.op = "q" => /\ Queries(out') = 0
                                /\ Responses(out') = Len(out'.sent[in'.from].resp)
                                /\ Responses(out') = 1 \/ (Responses(out') = 0 /\ "token" \in DOMAIN in'.m /\ s' = s)]_vars
\* C19: an unserved torrent never gets what is known about the served one
Apart == [][(in'.op = "q" /\ "hash" \in DOMAIN in'.m) =>
              \A k \in 1..Len(out'.sent[in'.from].resp) :
                 LET v == out'.sent[in'.from].resp[k].values IN \A j \in 1..Len(v) : v[j] \in (IF in'.m.hash = "T" THEN s.pool ELSE s.store)]_vars
\* C21: nobody is asked twice in one search; every search ends; every peer found is used
NotTwice == [][(Events /\ in'.op # "stop" /\ (in'.op = "adv" => in'.n <= 6)) =>
                 \A a \in Nodes : out'.sent[a].get <= 1 /\ (out'.sent[a].get = 1 /\ s.fe.ph = "collect" /\ in'.op # "adv" => s.map[a] = "no")]_vars
FewTold == [][(Events /\ in'.op # "stop" /\ (in'.op = "adv" => in'.n <= 6)) => Cardinality({a \in Nodes : out'.sent[a].ann # <<>>}) <= Top]_vars
Ends == s.fe.ph = "collect" => s.fe.left <= Window
Used == [][(in'.op = "r" /\ in'.kind = "get" /\ Awaited(s, in') /\ in'.c = "gvalues" /\ s.fe.ph = "collect" /\ in'.from \in In(s))
             => \A k \in 1..Len(in'.values) : in'.values[k] \in s'.pool]_vars
OnlyTokened == [][(Events /\ in'.op = "adv") => \A a \in Nodes : out'.sent[a].ann # <<>> => s.map[a] \in {"has", "less"} \/ s'.map[a] \in {"has", "less"}]_vars
=============================================================================
