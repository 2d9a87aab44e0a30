------------------------------ MODULE Sessions ------------------------------
(* The handle on all peer sessions of a torrent (C08): connect, disconnect,  *)
(* sending, and the queue of what the peers said, with several peers that    *)
(* come and go while earlier reports are still waiting to be read.           *)
EXTENDS WireFmt

CONSTANTS Peers,         \* 1..n
          MaxQ,          \* reports waiting at most
          Floods,        \* how much is sent to a remote that reads slowly
          Replies        \* messages a remote may send

VARIABLES sess, que, q, in, out
vars == <<sess, que, q, in, out>>
View == <<sess, que, q>>

\* sess[p]: "none", "dial" (no handshake yet), "open", or "dead" (over, the report not read yet)
\* que[p]: messages queued while dialling
\* q: what was said and not read yet; cur: said by the session that is still the peer's current one

Init == /\ sess = [p \in Peers |-> "none"] /\ que = [p \in Peers |-> <<>>] /\ q = <<>>
        /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == /\ sess' = [p \in Peers |-> "none"] /\ que' = [p \in Peers |-> <<>>] /\ q' = <<>>
         /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

Live(s, p) == IF s[p] \in {"dial", "open"} THEN 1 ELSE 0
\* what the remotes see: connections accepted, bytes, and how many connections are open
Said(op, said) == [op |-> op, res |-> "ok", said |-> said, acc |-> [p \in Peers |-> 0], wire |-> [p \in Peers |-> <<>>],
                   live |-> [p \in Peers |-> Live(sess', p)]]
Obs(op, res, acc, wire) ==
    [op |-> op, res |-> res, said |-> <<>>, acc |-> acc, wire |-> wire, live |-> [p \in Peers |-> Live(sess', p)]]
Zero == [p \in Peers |-> 0]
Empty == [p \in Peers |-> <<>>]

Item(p, m) == [p |-> p, m |-> m, cur |-> TRUE]
Report(k) == [k |-> k, v |-> <<>>, b |-> <<>>]
IsReport(m) == m.k \in {"unreachable", "disconnected"}
Age(s, p) == [n \in DOMAIN s |-> IF s[n].p = p THEN [s[n] EXCEPT !.cur = FALSE] ELSE s[n]]

RECURSIVE EncAll(_)
EncAll(ms) == IF ms = <<>> THEN <<>> ELSE RCat(Enc(ms[1]), EncAll(Tail(ms)))

\* dialling a peer that listens (up) or does not
Connect(i) ==
    IF sess[i.p] # "none" THEN UNCHANGED <<sess, que, q>> /\ out' = Obs("connect", "ok", Zero, Empty)
    ELSE IF i.up THEN /\ sess' = [sess EXCEPT ![i.p] = "dial"] /\ UNCHANGED <<que, q>>
                      /\ out' = Obs("connect", "ok", [Zero EXCEPT ![i.p] = 1], [Empty EXCEPT ![i.p] = Handshake(Hash, OwnId)])
    ELSE /\ sess' = [sess EXCEPT ![i.p] = "dead"] /\ que' = que
         /\ q' = Append(q, Item(i.p, Report("unreachable"))) /\ out' = Obs("connect", "ok", Zero, Empty)

Ends(p, k) == /\ sess' = [sess EXCEPT ![p] = "dead"] /\ que' = [que EXCEPT ![p] = <<>>]
              /\ q' = Append(q, Item(p, Report(k)))

\* the remote answers the handshake, properly or not
Shake(i) ==
    /\ sess[i.p] = "dial"
    /\ IF i.good THEN /\ sess' = [sess EXCEPT ![i.p] = "open"] /\ que' = [que EXCEPT ![i.p] = <<>>] /\ q' = q
                      /\ out' = Obs("shake", "ok", Zero, [Empty EXCEPT ![i.p] = EncAll(que[i.p])])
       ELSE Ends(i.p, "unreachable") /\ out' = Obs("shake", "ok", Zero, Empty)

Say(i) == /\ sess[i.p] = "open" /\ q' = Append(q, Item(i.p, i.m)) /\ UNCHANGED <<sess, que>>
          /\ out' = Obs("say", "ok", Zero, Empty)

\* the remote closes (how = "fin") or resets the connection
Close(i) == /\ sess[i.p] \in {"dial", "open"}
            /\ Ends(i.p, IF sess[i.p] = "open" THEN "disconnected" ELSE "unreachable")
            /\ out' = Obs("close", "ok", Zero, Empty)

SendTo(i) == LET s == sess[i.p] IN
    /\ que' = IF s = "dial" THEN [que EXCEPT ![i.p] = Append(@, i.m)] ELSE que
    /\ UNCHANGED <<sess, q>>
    /\ out' = Obs("send", IF s \in {"dial", "open"} THEN "ok" ELSE "err", Zero,
                  IF s = "open" THEN [Empty EXCEPT ![i.p] = Enc(i.m)] ELSE Empty)

\* the client has a lot to say to a remote that reads it slowly
RECURSIVE Many(_, _)
Many(e, n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN e
              ELSE LET h == Many(e, n \div 2) IN IF n % 2 = 0 THEN RCat(h, h) ELSE RCat(RCat(h, h), e)
Flood(i) == /\ sess[i.p] = "open" /\ UNCHANGED <<sess, que, q>>
            /\ out' = Obs("flood", "ok", Zero, [Empty EXCEPT ![i.p] = Many(EncAll(i.ms), i.n)])

Disconnect(i) == /\ sess' = [sess EXCEPT ![i.p] = "none"] /\ que' = [que EXCEPT ![i.p] = <<>>]
                 /\ q' = Age(q, i.p) /\ out' = Obs("disconnect", "ok", Zero, Empty)

\* What the application reads next.  What an earlier session said may come late or not at all;
\* its end is reported only if the peer has no session that is alive.
MaySkip(x) == ~x.cur
MayTell(x) == IF IsReport(x.m) THEN sess[x.p] = "dead" ELSE TRUE
Tell(x) == [p |-> x.p, m |-> x.m]
Recv(i) ==
    \/ \E k \in 1..Len(q) :
         /\ \A j \in 1..(k - 1) : MaySkip(q[j])
         /\ MayTell(q[k])
         /\ IF IsReport(q[k].m)
            THEN sess' = [sess EXCEPT ![q[k].p] = "none"] /\ q' = Age(SubSeq(q, k + 1, Len(q)), q[k].p)
            ELSE sess' = sess /\ q' = SubSeq(q, k + 1, Len(q))
         /\ que' = que
         /\ out' = Said("recv", <<Tell(q[k])>>)
    \/ /\ \A j \in 1..Len(q) : MaySkip(q[j])
       /\ q' = <<>> /\ UNCHANGED <<sess, que>>
       /\ out' = Said("recv", <<>>)

\* nothing of ended sessions keeps running
Idle(i) == /\ \A p \in Peers : sess[p] = "none"
           /\ UNCHANGED <<sess, que, q>> /\ out' = Obs("idle", "no tasks", Zero, Empty)

Step(i) == /\ in' = i
           /\ CASE i.op = "connect" -> Connect(i)
                [] i.op = "shake" -> Shake(i)
                [] i.op = "say" -> Say(i)
                [] i.op = "close" -> Close(i)
                [] i.op = "send" -> SendTo(i)
                [] i.op = "flood" -> Flood(i)
                [] i.op = "disconnect" -> Disconnect(i)
                [] i.op = "recv" -> Recv(i)
                [] i.op = "idle" -> Idle(i)

----------------------------------------------------------------------------
B4(a, b, c, d) == <<a, b, c, d>>
Range20 == B4(0, 0, 0, 1) \o B4(0, 0, 64, 0) \o B4(0, 0, 64, 0)
SendKinds == {Plain("choke"), Plain("unchoke"), Plain("interested"), Plain("notinterested"),
              Msg("have", B4(1, 2, 3, 4), <<>>), Msg("bitfield", <<>>, <<<<160, 1>>, <<0, 1>>>>),
              Msg("piece", B4(0, 0, 0, 1) \o B4(0, 0, 64, 0), <<<<7, 16384>>>>),
              Msg("cancel", Range20, <<>>), Msg("port", <<26, 225>>, <<>>)}
OneReply == {Msg("have", B4(0, 0, 0, 9), <<>>)}
TwoReplies == {Msg("have", B4(0, 0, 0, 9), <<>>), Plain("unchoke")}
TwoPeers == {1, 2}
ThreePeers == {1, 2, 3}

Inputs == {}
Room == Len(q) < MaxQ
Next == \E p \in Peers :
        \/ (Room \/ sess[p] # "none") /\ \E u \in BOOLEAN : Step([op |-> "connect", p |-> p, up |-> u])
        \/ Step([op |-> "shake", p |-> p, good |-> TRUE])
        \/ Room /\ Step([op |-> "shake", p |-> p, good |-> FALSE])
        \/ Room /\ \E m \in Replies : Step([op |-> "say", p |-> p, m |-> m])
        \/ Room /\ \E h \in {"fin", "rst"} : Step([op |-> "close", p |-> p, how |-> h])
        \/ Len(que[p]) < 1 /\ (sess[p] = "dial" \/ q = <<>>) /\ \E m \in SendKinds : Step([op |-> "send", p |-> p, m |-> m])
        \/ Len(que[p]) < 1 /\ q # <<>> /\ Step([op |-> "send", p |-> p, m |-> Plain("interested")])
        \/ /\ sess[p] = "open" /\ q = <<>> /\ \A o \in Peers : o > p => sess[o] = "none"
           /\ Step([op |-> "flood", p |-> p, n |-> Floods, ms |-> <<Msg("piece", B4(0, 0, 0, 1) \o B4(0, 0, 64, 0), <<<<7, 9000>>, <<8, 7384>>>>),
                                                                   Msg("have", B4(1, 2, 3, 4), <<>>)>>])
        \/ Step([op |-> "disconnect", p |-> p])
        \/ p = 1 /\ Step([op |-> "recv"])
        \/ p = 1 /\ Step([op |-> "idle"])
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
(* Properties *)
\* an ended session can always be learnt of, and then dialled again
DeadIsReported == \A p \in Peers : sess[p] = "dead" => \E k \in 1..Len(q) : q[k].p = p /\ q[k].cur /\ IsReport(q[k].m)
AliveIsNot == \A p \in Peers : sess[p] # "dead" => ~\E k \in 1..Len(q) : q[k].p = p /\ q[k].cur /\ IsReport(q[k].m)
QueuedOnlyDialling == \A p \in Peers : que[p] # <<>> => sess[p] = "dial"
\* a report that is read is about a session that has ended, and leaves the peer without one
ReportMeansEnd == [][in'.op = "recv" /\ out'.said # <<>> /\ IsReport(out'.said[1].m)
                     => sess[out'.said[1].p] = "dead" /\ sess'[out'.said[1].p] = "none"]_vars
\* one step concerns one peer
OthersUntouched == [][("p" \in DOMAIN in') => \A o \in Peers \ {in'.p} : sess'[o] = sess[o] /\ out'.wire[o] = <<>> /\ out'.acc[o] = 0]_vars
SecondConnectIsNone == [][in'.op = "connect" /\ sess[in'.p] # "none" => out'.acc = Zero]_vars
=============================================================================
