-------------------------------- MODULE Wire --------------------------------
(* One session with a remote peer, from dialling to its end (C05, C06, C07). *)
(* The remote may send any bytes in any pieces, close, or reset; the client  *)
(* may queue messages and may ask the session to stop.                       *)
EXTENDS WireFmt

VARIABLES src, pos, st, buf, que, rude, in, out
vars == <<src, pos, st, buf, que, rude, in, out>>
View == <<src, pos, st, buf, que, rude>>

\* st: "none", "dialling" (handshake under way), "open", "over"
\* src, pos: which prepared stream the remote follows and how far (input choice only)
\* que: messages queued before the session opened
\* rude: what has arrived is already hopeless; the client may end the session from now on

Init == /\ src = 0 /\ pos = 0 /\ st = "none" /\ buf = <<>> /\ que = <<>> /\ rude = FALSE
        /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == /\ src' = 0 /\ pos' = 0 /\ st' = "none" /\ buf' = <<>> /\ que' = <<>> /\ rude' = FALSE
         /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

Obs(op, ses, ms, wire, res) ==
    [op |-> op, ses |-> ses,
     dht |-> [k \in 1..Len(SelectSeq(ms, IsPort)) |-> SelectSeq(ms, IsPort)[k].v],
     blocks |-> SelectSeq(ms, IsBlock), wire |-> wire, res |-> res, over |-> (st' = "over")]

End(i, ses, ms, wire) == /\ st' = "over" /\ buf' = <<>> /\ que' = <<>> /\ src' = 0 /\ pos' = 0 /\ rude' = FALSE
                         /\ out' = Obs(i.op, ses, ms, wire, "ok")

RECURSIVE EncAll(_)
EncAll(ms) == IF ms = <<>> THEN <<>> ELSE RCat(Enc(ms[1]), EncAll(Tail(ms)))

GoodHandshake(h) == RTake(h, 20) = Protocol /\ RSub(h, 28, 20) = Hash
\* a proper beginning of some good handshake
Hopeful(h) == /\ IsPrefixR(RTake(h, 20), Protocol)
              /\ RLen(h) > 28 => IsPrefixR(RSub(h, 28, 20), Hash)

Gone == [k |-> "disconnected", v |-> <<>>, b |-> <<>>]
Unreachable == [k |-> "unreachable", v |-> <<>>, b |-> <<>>]

\* dialling a peer that listens, or one that does not
Start(i) == /\ st = "none"
            /\ IF i.refuse THEN End(i, <<Unreachable>>, <<>>, <<>>)
               ELSE /\ st' = "dialling" /\ buf' = <<>> /\ que' = <<>> /\ rude' = FALSE
                    /\ src' = i.src /\ pos' = 0
                    /\ out' = Obs("start", <<>>, <<>>, Handshake(Hash, OwnId), "ok")

\* the remote sends bytes, and then perhaps closes its end
Feed(i) ==
    LET all == RCat(buf, i.d)
        opens == st = "dialling" /\ RLen(all) >= HandshakeLen /\ GoodHandshake(RTake(all, HandshakeLen))
        r == IF st = "dialling" /\ ~opens THEN [ms |-> <<>>, rest |-> all, what |-> "more"]
             ELSE ReadAll(IF opens THEN RDrop(all, HandshakeLen) ELSE all, <<>>)
        wire == IF opens THEN EncAll(que) ELSE <<>>
    IN /\ st \in {"dialling", "open", "over"}
       /\ CASE st = "over" -> /\ UNCHANGED <<src, pos, st, buf, que, rude>>
                              /\ out' = Obs("feed", <<>>, <<>>, <<>>, "ok")
            [] st = "dialling" /\ ~opens ->
                 \/ /\ i.fin \/ RLen(all) >= HandshakeLen \/ ~Hopeful(all)
                    /\ End(i, <<Unreachable>>, <<>>, <<>>)
                 \/ /\ ~i.fin /\ RLen(all) < HandshakeLen
                    /\ buf' = all /\ pos' = pos + RLen(i.d) /\ rude' = ~Hopeful(all)
                    /\ UNCHANGED <<src, st, que>> /\ out' = Obs("feed", <<>>, <<>>, <<>>, "ok")
            [] OTHER ->
                 \/ /\ i.fin \/ r.what \in {"bad", "hopeless"}
                    \* a session that ends as it opens may not get round to sending everything
                    /\ \E k \in 0..Len(que) : (~opens => k = 0) /\
                          End(i, Append(OfSession(r.ms), Gone), r.ms, IF opens THEN EncAll(SubSeq(que, 1, k)) ELSE <<>>)
                 \/ /\ ~i.fin /\ r.what # "bad"
                    /\ st' = "open" /\ que' = <<>> /\ buf' = r.rest /\ pos' = pos + RLen(i.d)
                    /\ rude' = (r.what = "hopeless") /\ src' = src
                    /\ out' = Obs("feed", OfSession(r.ms), r.ms, wire, "ok")

\* the remote resets the connection while nothing is under way
Rst(i) == /\ st \in {"dialling", "open"}
          /\ End(i, <<IF st = "open" THEN Gone ELSE Unreachable>>, <<>>, <<>>)

\* the remote resets the connection and the client queues a message before it can notice
RstSend(i) == /\ st \in {"dialling", "open"}
              /\ End([op |-> "rstsend"], <<IF st = "open" THEN Gone ELSE Unreachable>>, <<>>, <<>>)

\* the client queues a message for the peer
Send(i) == /\ st \in {"dialling", "open", "over"}
           /\ que' = IF st = "dialling" THEN Append(que, i.m) ELSE que
           /\ UNCHANGED <<src, pos, st, buf, rude>>
           /\ out' = Obs("send", <<>>, <<>>, IF st = "open" THEN Enc(i.m) ELSE <<>>, IF st = "over" THEN "err" ELSE "ok")

\* the client ends the session; nothing is reported about what it asked for itself
Stop(i) == /\ st \in {"dialling", "open"}
           /\ End(i, <<>>, <<>>, <<>>)

Step(i) == /\ in' = i
           /\ CASE i.op = "start" -> Start(i)
                [] i.op = "feed" -> Feed(i)
                [] i.op = "rst" -> Rst(i)
                [] i.op = "rstsend" -> RstSend(i)
                [] i.op = "send" -> Send(i)
                [] i.op = "stop" -> Stop(i)

----------------------------------------------------------------------------
(* Bounded instances: streams of the remote and where they may be cut.       *)
B4(a, b, c, d) == <<a, b, c, d>>
Have == Msg("have", B4(0, 1, 2, 3), <<>>)
Proper == <<Plain("keepalive"), Plain("choke"), Plain("unchoke"), Plain("interested"), Plain("notinterested"),
            Have, Msg("have", B4(255, 255, 255, 255), <<>>),
            Msg("bitfield", <<>>, <<>>), Msg("bitfield", <<>>, <<<<170, 1>>, <<128, 1>>, <<0, 1>>>>),
            Msg("bitfield", <<>>, RRep(255, 16507)),
            Msg("request", B4(0, 0, 0, 1) \o B4(0, 0, 64, 0) \o B4(0, 0, 64, 0), <<>>),
            Msg("request", B4(255, 254, 253, 252) \o B4(251, 250, 249, 248) \o B4(247, 246, 245, 244), <<>>),
            Msg("piece", B4(0, 0, 0, 2) \o B4(0, 0, 128, 0), <<>>),
            Msg("piece", B4(1, 2, 3, 4) \o B4(5, 6, 7, 8), <<<<9, 1>>, <<4, 2>>, <<0, 3>>>>),
            Msg("piece", B4(0, 0, 0, 3) \o B4(0, 0, 64, 0), <<<<77, 8000>>, <<1, 1>>, <<78, 8383>>>>),
            Msg("piece", B4(0, 0, 0, 0) \o B4(0, 0, 0, 0), RRep(5, 16499)),
            Msg("cancel", B4(0, 0, 0, 1) \o B4(0, 0, 64, 0) \o B4(0, 0, 64, 0), <<>>),
            Msg("port", <<26, 225>>, <<>>), Msg("port", <<255, 255>>, <<>>), Msg("port", <<0, 0>>, <<>>)>>
Raw(len, rest) == RCat(ROf(len), rest)
Unknown == <<Raw(B4(0, 0, 0, 1), ROne(10)), Raw(B4(0, 0, 0, 5), <<<<255, 1>>, <<0, 4>>>>),
             Raw(B4(0, 0, 0, 9), ROf(<<20, 0, 0, 0, 1, 0, 0, 0, 1>>)),
             Raw(B4(0, 0, 64, 124), <<<<21, 1>>, <<1, 16507>>>>)>>
Odd == <<Raw(B4(0, 0, 0, 2), ROf(<<0, 1>>)), Raw(B4(0, 0, 0, 3), ROf(<<3, 0, 0>>)),
         Raw(B4(0, 0, 0, 1), ROne(4)), Raw(B4(0, 0, 0, 4), ROf(<<4, 0, 0, 0>>)), Raw(B4(0, 0, 0, 6), ROf(<<4, 0, 0, 0, 0, 1>>)),
         Raw(B4(0, 0, 0, 12), <<<<6, 1>>, <<0, 11>>>>), Raw(B4(0, 0, 0, 14), <<<<6, 1>>, <<0, 13>>>>), Raw(B4(0, 0, 0, 1), ROne(6)),
         Raw(B4(0, 0, 0, 1), ROne(7)), Raw(B4(0, 0, 0, 5), <<<<7, 1>>, <<0, 4>>>>), Raw(B4(0, 0, 0, 8), <<<<7, 1>>, <<1, 7>>>>),
         Raw(B4(0, 0, 0, 1), ROne(8)), Raw(B4(0, 0, 0, 17), <<<<8, 1>>, <<0, 16>>>>),
         Raw(B4(0, 0, 0, 1), ROne(9)), Raw(B4(0, 0, 0, 2), ROf(<<9, 1>>)), Raw(B4(0, 0, 0, 4), ROf(<<9, 1, 2, 3>>)),
         Raw(B4(0, 0, 64, 125), ROf(<<7, 0, 0, 0, 0, 1, 2, 3, 4>>)), Raw(B4(0, 1, 0, 0), ROf(<<5, 0>>)),
         Raw(B4(0, 255, 255, 255), ROne(20)), Raw(B4(1, 0, 0, 0), ROne(0)), Raw(B4(1, 0, 0, 1), ROne(2)),
         Raw(B4(128, 0, 0, 0), ROne(7)), Raw(B4(255, 255, 255, 255), ROf(<<7, 7>>)), Raw(B4(255, 255, 255, 252), <<>>),
         RCat(ROf(<<0, 0, 64, 125, 5>>), RRep(3, 16508)), RCat(ROf(<<0, 0, 255, 255, 20>>), RRep(3, 17000))>>
Chunks == TLCEval([k \in 1..Len(Proper) |-> Enc(Proper[k])] \o Unknown \o Odd)
NP == Len(Proper)
NU == Len(Unknown)
NC == Len(Chunks)

RemoteId == RRep(82, 20)
GoodShake == RCats(<<Protocol, RRep(0, 8), Hash, RemoteId>>)
Shakes == <<GoodShake,
            RCats(<<Protocol, RRep(255, 8), Hash, RRep(0, 20)>>),
            RCats(<<ROne(18), RDrop(Protocol, 1), RRep(0, 8), Hash, RemoteId>>),
            RCats(<<ROne(255), RDrop(Protocol, 1), RRep(0, 8), Hash, RemoteId>>),
            RCats(<<ROne(19), ROne(98), RDrop(Protocol, 2), RRep(0, 8), Hash, RemoteId>>),
            RCats(<<RTake(Protocol, 19), ROne(76), RRep(0, 8), Hash, RemoteId>>),
            RCats(<<RTake(Protocol, 10), RRep(32, 10), RRep(0, 8), Hash, RemoteId>>),
            RCats(<<Protocol, RRep(0, 8), ROne(170), RDrop(Hash, 1), RemoteId>>),
            RCats(<<Protocol, RRep(0, 8), RTake(Hash, 19), ROne(238), RemoteId>>),
            RCats(<<Protocol, RRep(0, 8), RTake(Hash, 10), ROne(204), RDrop(Hash, 11), RemoteId>>),
            RCats(<<Protocol, RRep(0, 8), RRep(0, 20), RemoteId>>),
            RCats(<<Protocol, RRep(0, 8), RemoteId, Hash>>),
            RCats(<<Protocol, RRep(0, 8), OwnId, Hash>>),
            RRep(0, 68), RRep(19, 68)>>
\* a good handshake with one byte changed (its lowest bit or its case)
Low(b) == IF b % 2 = 0 THEN b + 1 ELSE b - 1
Case(b) == IF (b \div 32) % 2 = 0 THEN b + 32 ELSE b - 32
With(x, k, b) == RCats(<<RTake(x, k), ROne(b), RDrop(x, k + 1)>>)
Twisted == LET f(k) == With(GoodShake, k, Low(RAt(GoodShake, k)))
               g(k) == With(GoodShake, k, Case(RAt(GoodShake, k)))
           IN [k \in 1..20 |-> f(k - 1)] \o [k \in 1..20 |-> f(k + 27)] \o [k \in 1..20 |-> g(k - 1)] \o [k \in 1..20 |-> g(k + 27)]

\* cut points inside a chunk that starts at offset o
CutsOf(c, o, all) == LET n == RLen(c)
                         s == IF all /\ n <= 40 THEN 0..n ELSE {0, 1, 4, 5, 7, 12, 13, n - 1, n, 1460, 16384}
                     IN {o + k : k \in {x \in s : x >= 0 /\ x <= n}}
RECURSIVE CutsFrom(_, _, _)
CutsFrom(cs, o, all) == IF cs = <<>> THEN {} ELSE CutsOf(cs[1], o, all) \cup CutsFrom(Tail(cs), o + RLen(cs[1]), all)

CONSTANTS Scripts,       \* which streams (an operator below)
          Closings,      \* the remote may close right after a piece of the stream
          SendMsgs       \* messages the client may queue
\* A stream: the handshake and then chunks; cuts: where the remote may pause.
Stream(h, ks) == [bytes |-> RCats(<<Shakes[h]>> \o [k \in 1..Len(ks) |-> Chunks[ks[k]]]),
                  shake |-> FALSE,
                  cuts |-> {0} \cup CutsFrom([k \in 1..Len(ks) |-> Chunks[ks[k]]], 68, Len(ks) <= 2)]
ShakeStream(h, ks) == [Stream(h, ks) EXCEPT !.shake = TRUE, !.cuts = {0, 1, 2, 10, 19, 20, 21, 27, 28, 29, 38, 39, 47, 48, 49, 67, 68, 72, 73}
                                                     \cup (IF h = 1 THEN 0..68 ELSE {})
                                                     \cup {RLen(Stream(h, ks).bytes)}]
Handshakes == TLCEval([h \in 1..Len(Shakes) |-> ShakeStream(h, <<6, 18>>)] \o <<ShakeStream(1, <<>>)>>)
TwistedStreams == TLCEval([k \in 1..Len(Twisted) |->
                             LET b == RCat(Twisted[k], Enc(Have)) IN [bytes |-> b, shake |-> FALSE, cuts |-> {0, RLen(b)}]])
Singles == TLCEval([k \in 1..NC |-> Stream(1, <<k, 6>>)])
PairsOf(A, C) == LET P == SetToSeq(A \X C) IN [k \in 1..Len(P) |-> Stream(1, <<P[k][1], P[k][2], 6>>)]
Pairs == TLCEval(PairsOf(1..(NP + NU), 1..(NP + NU)))
OddPairs == TLCEval(PairsOf({1, 3, 6, 11, 15, NP + 2}, (NP + NU + 1)..NC))
Wrap == NP + NU
Rot(k, d) == LET r == (k + d) % Wrap IN r + 1
Triples == TLCEval([k \in 1..(NP + NU) |-> Stream(1, <<k, Rot(k, 6), Rot(k, 13), Rot(k, 17), k, 6>>)])
ProperStreams == TLCEval([k \in 1..(NP + NU) |-> Stream(1, <<k, 6>>)] \o Triples)
ProperPairs == TLCEval(Triples \o Pairs)
RoughStreams == TLCEval(Singles)
RoughPairs == TLCEval(Singles \o OddPairs)
ShakeStreams == TLCEval(Handshakes \o TwistedStreams)
ShakePairs == TLCEval([h \in 1..Len(Shakes) |-> ShakeStream(h, <<6, 15, 18>>)] \o <<ShakeStream(1, <<>>), ShakeStream(1, <<25>>)>> \o TwistedStreams)

SomeMsgs == {Proper[k] : k \in {1, 6, 15}}
AllMsgs == {Proper[k] : k \in 1..NP}
NoMsgs == {}

FeedOf(s, from, to, fin) == [op |-> "feed", d |-> RSub(Scripts[s].bytes, from, to - from), fin |-> fin]
Inputs == {}
Later == {x \in Scripts[src].cuts : x > pos}
\* with messages waiting for the session to open only the handshake's end matters
Ahead == IF que # <<>> THEN {x \in Later : x = 68 \/ x = Max(Scripts[src].cuts)}
         ELSE IF pos = 0 /\ ~Scripts[src].shake THEN {68, Max(Scripts[src].cuts)} ELSE Later
NextCut == IF Later = {} THEN {} ELSE {Min(Later), Max(Later)}
Next == \/ \E s \in 1..Len(Scripts) : Step([op |-> "start", refuse |-> FALSE, src |-> s])
        \/ Step([op |-> "start", refuse |-> TRUE, src |-> 0])
        \/ /\ st \in {"dialling", "open"}
           /\ \E t \in Ahead : Step(FeedOf(src, pos, t, FALSE))
        \/ /\ st \in {"dialling", "open"} /\ Closings
           /\ \E t \in {pos} \cup NextCut : Step(FeedOf(src, pos, t, TRUE))
        \/ st = "over" /\ Step([op |-> "feed", d |-> Enc(Have), fin |-> FALSE])
        \/ st = "dialling" /\ Len(que) < 2 /\ pos \in {0, 1} /\ src \in {1, 2, 8} /\ \E m \in SendMsgs : Step([op |-> "send", m |-> m])
        \/ st # "dialling" /\ src \in {0, 1} /\ \E m \in SendMsgs : Step([op |-> "send", m |-> m])
        \/ Step([op |-> "rst"])
        \/ st # "dialling" /\ Step([op |-> "rstsend", m |-> Have])
        \/ Step([op |-> "stop"])
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
(* Properties *)
Kind(o) == IF "ses" \in DOMAIN o THEN {o.ses[k].k : k \in 1..Len(o.ses)} ELSE {}
Told(o) == Kind(o) \cap {"disconnected", "unreachable"}
\* C06: exactly one report when the remote ends it, and nothing afterwards
OneReport == [][(st' = "over" /\ st # "over" /\ in'.op # "stop") <=> Told(out') # {}]_vars
ReportIsLast == [][in'.op # "reset" => \A k \in 1..Len(out'.ses) : out'.ses[k].k \in {"disconnected", "unreachable"} => k = Len(out'.ses)]_vars
SilentWhenOver == [][st = "over" /\ in'.op # "reset" => out'.ses = <<>> /\ out'.blocks = <<>> /\ out'.dht = <<>> /\ out'.wire = <<>>]_vars
\* C07: nothing is delivered without a good handshake
OnlyAfterHandshake == [][in'.op # "reset" => ((out'.blocks # <<>> \/ out'.dht # <<>> \/ Kind(out') \ {"unreachable"} # {})
                          => st = "open" \/ (st = "dialling" /\ GoodHandshake(RTake(RCat(buf, in'.d), HandshakeLen))))]_vars
\* C05: what is decoded is what was encoded, whatever else is in the buffer
RoundTrip == \A k \in 1..NP : LET l == Look(RCat(Enc(Proper[k]), <<<<200, 3>>>>)) IN l.what = "msg" /\ l.m = Proper[k] /\ l.n = RLen(Enc(Proper[k]))
\* and a stream of proper messages, cut anywhere, is those messages
ASSUME \A a, b \in {1, 6, 8, 9, 11, 14, 18} :
          LET s == RCat(Enc(Proper[a]), Enc(Proper[b]))
          IN \A n \in 0..RLen(s) : LET r == ReadAll(RTake(s, n), <<>>)
                                       t == ReadAll(RCat(r.rest, RDrop(s, n)), r.ms)
                                   IN r.what = "more" /\ t.ms = <<Proper[a], Proper[b]>> /\ t.rest = <<>>
ASSUME RoundTrip
=============================================================================
