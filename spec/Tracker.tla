------------------------------- MODULE Tracker -------------------------------
(* The client and its HTTP trackers (C22, C23): what it announces to each of  *)
(* them and when, and what it makes of their responses.  Time is in seconds.  *)
EXTENDS Bencode

CONSTANTS N,        \* trackers
          Refusing, \* those whose host refuses connections
          Pieces,   \* pieces of the torrent; all have PieceLen bytes but the last one
          Style     \* what happens in the exhaustive instance

VARIABLES s, in, out
vars == <<s, in, out>>

Trackers == 1..N
PieceLen == 16384
Total == (Pieces - 1) * PieceLen + 1000
Left(d) == MaxOf(0, Total - d * PieceLen)
Port == 7123
Timeout == 128
Retry == 64
Never == -1
NoTid == <<-1>>

----------------------------------------------------------------------------
(* s.tr[k]: ph: ask (a request is on its way), retry, wait, bye (the last      *)
(* request is on its way), gone; n: how long so far (ask, bye) or how much      *)
(* longer (retry, wait); ev, left: of the present announce; tid: the tracker id *)
(* to send back; q: completions still to be told; ok: a start was answered;     *)
(* mute: the tracker said something and fell silent                             *)
Start == [tr |-> [k \in Trackers |-> [ph |-> "off", n |-> 0, ev |-> "started", left |-> Total, tid |-> NoTid, q |-> 0, ok |-> FALSE, mute |-> FALSE]],
          d |-> 0, pool |-> {}, run |-> "off", h |-> 0]   \* h: the pattern of info hash and peer id
View == [s EXCEPT !.pool = SortedBytes(@)]
Init == s = Start /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == s' = Start /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

\* r: a state together with what was sent on the way to it, and two ways to behave:
\* r.fresh: repeated announces carry the present progress and not that of the first try;
\* r.tell: of a completion and the end of a wait at the same time the completion comes first
Request(r, k) ==
    LET tr == r.s.tr[k]
    IN IF k \in Refusing THEN r
       ELSE [r EXCEPT !.sent[k] = Append(@, [hash |-> r.s.h, id |-> r.s.h, port |-> Port, up |-> 0, compact |-> 1,
                                             left |-> IF r.fresh THEN Left(r.s.d) ELSE tr.left, ev |-> tr.ev, tid |-> tr.tid])]
Fail(r, k) == IF r.s.tr[k].ph = "bye" THEN [r EXCEPT !.s.tr[k] = [@ EXCEPT !.ph = "gone", !.n = 0, !.mute = FALSE]]
              ELSE [r EXCEPT !.s.tr[k] = [@ EXCEPT !.ph = "retry", !.n = Retry, !.mute = FALSE]]
Send(r, k, ph) == LET r1 == Request([r EXCEPT !.s.tr[k] = [@ EXCEPT !.ph = ph, !.n = 0, !.mute = FALSE]], k)
                  IN IF k \in Refusing THEN Fail(r1, k) ELSE r1
Announce(r, k, ev) == Send([r EXCEPT !.s.tr[k] = [@ EXCEPT !.ev = ev, !.left = Left(r.s.d)]], k, IF ev = "stopped" THEN "bye" ELSE "ask")
Complete(r, k) == Announce([r EXCEPT !.s.tr[k].q = @ - 1], k, "completed")
\* m: the response
Accept(r, k, m) ==
    IF r.s.tr[k].ph = "bye" THEN Fail(r, k)
    ELSE LET r1 == [r EXCEPT !.s.pool = @ \cup m.peers,
                             !.s.tr[k] = [@ EXCEPT !.ph = "wait", !.n = m.iv, !.ok = TRUE, !.mute = FALSE, !.tid = IF m.tid = NoTid THEN @ ELSE m.tid]]
         IN CASE r1.s.tr[k].q > 0 /\ (m.iv # 0 \/ r.tell) -> Complete(r1, k)
              [] m.iv = 0 -> Announce(r1, k, "none")
              [] OTHER -> r1

All(r, Op(_, _)) == FoldSeq(LAMBDA k, x : Op(x, k), r, [k \in Trackers |-> k])
Second(r, k) ==
    LET tr == r.s.tr[k]
        more == [r EXCEPT !.s.tr[k].n = @ + 1]
        less == [r EXCEPT !.s.tr[k].n = @ - 1]
    IN CASE tr.ph \in {"ask", "bye"} -> IF tr.n + 1 = Timeout THEN Fail(r, k) ELSE more
         [] tr.ph = "retry" -> IF tr.n = 1 THEN Send(r, k, "ask") ELSE less
         [] tr.ph = "wait" /\ tr.n # Never -> IF tr.n = 1 THEN Announce(r, k, "none") ELSE less
         [] OTHER -> r
RECURSIVE Adv(_, _)
Adv(r, n) == IF n = 0 THEN r ELSE Adv(All(r, Second), n - 1)
Remaining(k) == LET tr == s.tr[k]
                IN CASE tr.ph \in {"ask", "bye"} -> Timeout - tr.n
                     [] tr.ph = "retry" \/ (tr.ph = "wait" /\ tr.n # Never) -> tr.n
                     [] OTHER -> 1000
Next1 == Min({Remaining(k) : k \in Trackers})

Tell(r, k) == LET r1 == [r EXCEPT !.s.tr[k].q = @ + 1]
              IN CASE r.s.tr[k].ph = "wait" -> Complete(r1, k)
                   [] r.s.tr[k].ph \in {"ask", "retry"} -> r1
                   [] OTHER -> r
End(r, k) == IF r.s.tr[k].ok THEN Announce(r, k, "stopped") ELSE [r EXCEPT !.s.tr[k] = [@ EXCEPT !.ph = "gone", !.n = 0, !.mute = FALSE]]

----------------------------------------------------------------------------
(* Responses, byte by byte                                                    *)
DotAt(b) == {k \in 1..Len(b) : b[k] = 46}
Octet(b) == Len(b) \in 1..3 /\ (\A k \in 1..Len(b) : IsDigit(b[k])) /\ (Len(b) = 1 \/ b[1] # 48)
            /\ FoldSeq(LAMBDA x, y : 10 * y + x - 48, 0, b) <= 255
OctetValue(b) == FoldSeq(LAMBDA x, y : 10 * y + x - 48, 0, b)
Parts(b) == LET d == Sorted(DotAt(b) \cup {0, Len(b) + 1}) IN [k \in 1..(Len(d) - 1) |-> SubSeq(b, d[k] + 1, d[k + 1] - 1)]
IsIp(b) == Cardinality(DotAt(b)) = 3 /\ \A k \in 1..4 : Octet(Parts(b)[k])
U16(v) == IsI(v) /\ ~v.i.neg /\ Small(v.i.digits) /\ Num(v.i.digits) <= 65535
IsListed(v) == IsD(v) /\ Has(v, B("ip")) /\ Has(v, B("port")) /\ IsS(At(v, B("ip"))) /\ Utf8(At(v, B("ip")).s) /\ U16(At(v, B("port")))
PeerOf(v) == LET ip == Parts(At(v, B("ip")).s)
                 p == Num(At(v, B("port")).i.digits)
             IN [k \in 1..4 |-> OctetValue(ip[k])] \o <<p \div 256, p % 256>>
PeersOf(v) == IF IsS(v) THEN {SubSeq(v.s, 6 * k - 5, 6 * k) : k \in 1..(Len(v.s) \div 6)}
              ELSE {PeerOf(v.l[k]) : k \in {j \in 1..Len(v.l) : IsIp(At(v.l[j], B("ip")).s)}}
ArePeers(v) == IsS(v) \/ (IsL(v) /\ \A k \in 1..Len(v.l) : IsListed(v.l[k]))

\* what a response says; [bad], if it is no success
Meaning(b) ==
    LET p == Parse(b, 1)
        v == p.v
        has(f) == Has(v, B(f))
        at(f) == At(v, B(f))
    IN CASE ~p.ok -> [bad |-> TRUE]
         [] ~IsD(v) -> [bad |-> TRUE]
         [] ~has("interval") \/ ~has("peers") \/ has("failure reason") -> [bad |-> TRUE]
         [] ~IsU64(at("interval")) \/ ~ArePeers(at("peers")) -> [bad |-> TRUE]
         [] OTHER -> [iv |-> IF Small(Strip(at("interval").i.digits)) THEN Num(at("interval").i.digits) ELSE Never,
                      peers |-> PeersOf(at("peers")),
                      tid |-> IF has("tracker id") /\ IsS(at("tracker id")) THEN at("tracker id").s ELSE NoTid]
\* a response whose form is not quite right may be taken for what it seems to say, or as a failure
Unclear(b) ==
    LET p == Parse(b, 1)
        v == p.v
        odd(f, Ok(_)) == Has(v, B(f)) /\ ~Ok(At(v, B(f)))
        text(x) == IsS(x) /\ Utf8(x.s)
    IN ~p.canon \/ p.n # Len(b) + 1 \/ p.depth > 8 \/ Twice(v)
       \/ odd("complete", IsU64) \/ odd("incomplete", IsU64) \/ odd("min interval", IsU64)
       \/ odd("warning message", text) \/ odd("tracker id", IsS)
       \/ (IsS(At(v, B("peers"))) /\ Len(At(v, B("peers")).s) % 6 # 0)

Answer(r, i) ==
    LET m == Meaning(i.bytes)
    IN CASE i.how = "half" -> [r EXCEPT !.s.tr[i.t].mute = TRUE]
         [] i.how \in {"cut", "close", "none"} \/ "bad" \in DOMAIN m -> Fail(r, i.t)
         [] i.lax /\ Unclear(i.bytes) -> Fail(r, i.t)
         [] OTHER -> Accept(r, i.t, m)

----------------------------------------------------------------------------
Run(i, r) == CASE i.op = "go" -> All([r EXCEPT !.s.run = "on", !.s.h = i.h], LAMBDA x, k : Announce(x, k, "started"))
               [] i.op = "piece" -> [r EXCEPT !.s.d = @ + 1]
               [] i.op = "complete" -> All(r, Tell)
               [] i.op = "adv" -> Adv(r, i.n)
               [] i.op = "stop" -> All([r EXCEPT !.s.run = "stopped"], End)
               [] i.op = "ans" -> Answer(r, i)
Allowed(i) == CASE i.op = "go" -> s.run = "off"
                [] i.op \in {"piece", "complete", "stop"} -> s.run = "on" /\ (i.op = "piece" => s.d < Pieces)
                [] i.op = "ans" -> s.tr[i.t].ph \in {"ask", "bye"} /\ ~s.tr[i.t].mute
                [] OTHER -> s.run # "off"
Busy(st, k) == IF st.tr[k].ph \in {"ask", "bye"} THEN 1 ELSE 0
Over(st) == st.run = "stopped" /\ \A k \in Trackers : st.tr[k].ph = "gone"
Step(i) == /\ Allowed(i)
           /\ in' = i
           /\ \E fresh \in (IF i.op = "adv" THEN BOOLEAN ELSE {FALSE}), tell, lax \in (IF i.op = "ans" THEN BOOLEAN ELSE {FALSE}) :
                 LET r == Run(IF i.op = "ans" THEN i @@ [lax |-> lax] ELSE i,
                              [s |-> s, sent |-> [k \in Trackers |-> <<>>], fresh |-> fresh, tell |-> tell])
                 IN /\ s' = r.s
                    /\ out' = [op |-> i.op, sent |-> r.sent, open |-> [k \in Trackers |-> Busy(r.s, k)],
                               pool |-> SortedBytes(r.s.pool), over |-> Over(r.s)]

----------------------------------------------------------------------------
Inputs == {}
NoTrackers == {}
SecondTracker == {2}

Entry2(k, v) == <<B(k), v>>
P(k) == <<10, 0, 0, k, 27, k>>
Listed(k) == VD(<<Entry2("ip", VS(B("10.0.0.") \o <<48 + k>>)), Entry2("port", VI(256 * 27 + k))>>)
Resp(iv, peers, tid) == VD(<<Entry2("interval", VI(iv)), Entry2("peers", peers)>> \o (IF tid = NoTid THEN <<>> ELSE <<Entry2("tracker id", VS(tid))>>))
Failure == VD(<<Entry2("failure reason", VS(B("no")))>>)
Ans(k, how, v) == [op |-> "ans", t |-> k, how |-> how, bytes |-> Enc(v)]
Good(iv, peers, tid) == Resp(iv, VS(Flat([k \in 1..Len(peers) |-> P(peers[k])])), tid)

Time == LET n == Next1 IN n < 1000 /\ Step([op |-> "adv", n |-> IF n > 1 THEN n - 1 ELSE 1])
Session == \/ Step([op |-> "go", h |-> 3, url |-> 2])
           \/ \E x \in {"piece", "stop"} : Step([op |-> x])
           \/ (\A k \in Trackers : s.tr[k].q = 0) /\ Step([op |-> "complete"])
           \/ Time
           \/ \E k \in Trackers :
                 \/ \E iv \in {0, 30}, p \in {<<>>, <<1>>}, t \in {NoTid, <<38, 255>>} : (iv = 0 => p = <<>>) /\ Step(Ans(k, "full", Good(iv, p, t)))
                 \/ \E how \in {"close", "cut", "half"} : Step(Ans(k, how, Good(30, <<2>>, <<66>>)))
                 \/ Step(Ans(k, "chunked", Good(7, <<1>>, NoTid)))
                 \/ Step(Ans(k, "full", Failure))
Never2 == VD(<<Entry2("interval", VBig(<<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>)), Entry2("peers", VS(P(2)))>>)
\* two trackers, simpler answers
Side == \/ Step([op |-> "go", h |-> 3, url |-> 2])
        \/ \E x \in {"stop"} : Step([op |-> x])
        \/ (\A k \in Trackers : s.tr[k].q = 0 /\ s.tr[k].ev = "started") /\ Step([op |-> "complete"])
        \/ Next1 < 1000 /\ Step([op |-> "adv", n |-> 64])
        \/ \E k \in Trackers : Step(Ans(k, "full", Never2))
        \/ s.tr[1].ev = "started" /\ Step(Ans(1, "close", Failure))

Wrong(v) == {VI(5), VNeg(3), VS(<<>>), VS(<<255, 120>>), VL(<<>>), VL(<<VI(1)>>), VD(<<>>), VBig(<<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>)}
            \cup (IF IsS(v) /\ v.s # <<>> THEN {VS(Tail(v.s)), VS(v.s \o <<0>>), VL(<<v>>)} ELSE {})
            \cup (IF IsI(v) THEN {VI(65536), VI(0), VI(65535), VI(999999999), VBig(U64Max)} ELSE {})
RECURSIVE Variants(_)
But(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
Variants(v) ==
    Wrong(v)
    \cup (IF IsD(v) THEN {VD(But(v.d, k)) : k \in 1..Len(v.d)}
                        \cup UNION {{VD([v.d EXCEPT ![k] = <<@[1], x>>]) : x \in Variants(v.d[k][2])} : k \in 1..Len(v.d)}
                        \cup {VD(<< <<B("0"), VL(<<VI(1), VS(<<0>>)>>)>> >> \o v.d), VD(v.d \o << <<B("zz"), VD(<<>>)>> >>)}
                        \cup {VD(v.d \o <<v.d[k]>>) : k \in 1..Len(v.d)}
          ELSE {})
    \cup (IF IsL(v) THEN {VL(But(v.l, k)) : k \in 1..Len(v.l)}
                        \cup UNION {{VL([v.l EXCEPT ![k] = x]) : x \in Variants(v.l[k])} : k \in 1..Len(v.l)}
          ELSE {})
Cut(b) == {SubSeq(b, 1, k) : k \in 0..(Len(b) - 1)}
Ips == {"1.2.3.4", "255.255.255.255", "0.0.0.0", "256.1.1.1", "1.2.3", "1.2.3.4.5", "01.2.3.4", "1.2.3.", "::1", "example.org", "1.2.3.4 ", "+1.2.3.4", ""}
RECURSIVE Many(_, _)
Many(b, n) == IF n = 0 THEN <<>> ELSE b \o Many(b, n - 1)
Bases == {VD(<<Entry2("complete", VI(3)), Entry2("incomplete", VI(1)), Entry2("interval", VI(30)), Entry2("min interval", VI(9)), Entry2("peers", VS(P(1) \o P(2))),
               Entry2("tracker id", VS(<<97, 38, 61, 37, 43, 32, 0, 255>>)), Entry2("warning message", VS(B("hm")))>>),
          VD(<<Entry2("interval", VI(30)), Entry2("peers", VL(<<Listed(1), Listed(2)>>))>>),
          VD(<<Entry2("failure reason", VS(B("no"))), Entry2("interval", VI(30)), Entry2("peers", VS(P(3)))>>)}
Corpus == UNION {{Enc(b)} \cup Cut(Enc(b)) \cup {Enc(x) : x \in Variants(b)} : b \in Bases}
          \cup {Enc(Resp(30, VL(<<VD(<<Entry2("ip", VS(B(ip))), Entry2("peer id", VS(Many(<<7>>, 20))), Entry2("port", VI(p))>>)>>), NoTid)) : ip \in Ips, p \in {0, 6881, 65535}}
          \cup {Enc(Resp(30, VS(Many(<<9, 9>>, 3 * n)), <<n>>)) : n \in {0, 1, 3, 50}}
          \cup {Enc(Resp(30, VS(<<>>), <<k>>)) : k \in 0..255}
          \cup {Many(B("l"), 300) \o Many(B("e"), 300), B("d8:intervali30e5:peers") \o Many(B("l"), 300) \o Many(B("e"), 301), B("<html></html>"), <<>>}
\* every response, as the first one; what follows shows what was made of it
Responses == \/ Step([op |-> "go", h |-> 3, url |-> 2])
             \/ s.tr[1].ev = "started" /\ s.tr[1].n = 0 /\ \E b \in Corpus, how \in {"full"} : Step([op |-> "ans", t |-> 1, how |-> how, bytes |-> b])
             \/ s.tr[1].ev = "started" /\ s.tr[1].ph # "ask" /\ Next1 < 1000 /\ Step([op |-> "adv", n |-> Next1])

Next == CASE Style = "session" -> Session
          [] Style = "side" -> Side
          [] Style = "responses" -> Responses
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
(* Properties *)
Sent(k) == [n \in 1..Len(out'.sent[k]) |-> out'.sent[k][n]]
Real == in'.op \notin {"init", "reset"}
\* C22: started until a start was answered, and not after that
StartedFirst == [][Real => \A k \in Trackers : \A n \in 1..Len(out'.sent[k]) :
                     out'.sent[k][n].ev = "started" <=> ~s'.tr[k].ok]_vars
\* one stopped for every start that was answered, at the end
OneStop == [][Real => \A k \in Trackers \ Refusing :
                Cardinality({n \in 1..Len(out'.sent[k]) : out'.sent[k][n].ev = "stopped"}) = (IF in'.op = "stop" /\ s.tr[k].ok THEN 1 ELSE 0)]_vars
NothingAfter == [][(Real /\ s.run = "stopped") => \A k \in Trackers : out'.sent[k] = <<>>]_vars
\* what is completed is told once each
Told == [][Real => \A k \in Trackers : s'.tr[k].q <= s.tr[k].q + (IF in'.op = "complete" THEN 1 ELSE 0)]_vars
\* C23: the pool gets exactly the peers of responses that were accepted
PoolGrows == [][Real => /\ s.pool \subseteq s'.pool
                        /\ (in'.op # "ans" \/ in'.how \notin {"full", "chunked"}) => s'.pool = s.pool]_vars
LatestId == [][Real => \A k \in Trackers : \A n \in 1..Len(out'.sent[k]) : out'.sent[k][n].tid \in {s.tr[k].tid, s'.tr[k].tid}]_vars
\* an answer concerns its tracker only
Apart == [][(Real /\ in'.op = "ans") => \A k \in Trackers \ {in'.t} : s'.tr[k] = s.tr[k] /\ out'.sent[k] = <<>>]_vars
Waits == Over(s) => \A k \in Trackers : s.tr[k].ph = "gone"
=============================================================================
