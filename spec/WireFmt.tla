------------------------------ MODULE WireFmt ------------------------------
(* The peer wire format: byte strings, the handshake, encoding and decoding  *)
(* of messages.  A byte string is a sequence of runs <<byte, count>> with    *)
(* neighbouring runs of different bytes, so that 16 KiB blocks stay small.   *)
EXTENDS Conf

ROne(b) == <<<<b, 1>>>>
RRep(b, n) == IF n = 0 THEN <<>> ELSE <<<<b, n>>>>
RCat(x, y) == IF x = <<>> THEN y ELSE IF y = <<>> THEN x
              ELSE IF x[Len(x)][1] = y[1][1]
                   THEN SubSeq(x, 1, Len(x) - 1) \o <<<<y[1][1], x[Len(x)][2] + y[1][2]>>>> \o Tail(y)
                   ELSE x \o y
RECURSIVE RCats(_)
RCats(s) == IF s = <<>> THEN <<>> ELSE RCat(s[1], RCats(Tail(s)))
RECURSIVE RLen(_)
RLen(x) == IF x = <<>> THEN 0 ELSE x[1][2] + RLen(Tail(x))
RECURSIVE RTake(_, _)
RTake(x, n) == IF n = 0 \/ x = <<>> THEN <<>>
               ELSE IF x[1][2] >= n THEN <<<<x[1][1], n>>>>
               ELSE <<x[1]>> \o RTake(Tail(x), n - x[1][2])
RECURSIVE RDrop(_, _)
RDrop(x, n) == IF n = 0 \/ x = <<>> THEN x
               ELSE IF x[1][2] > n THEN <<<<x[1][1], x[1][2] - n>>>> \o Tail(x)
               ELSE RDrop(Tail(x), n - x[1][2])
RSub(x, from, n) == RTake(RDrop(x, from), n)
RAt(x, k) == RDrop(x, k)[1][1]
ROf(bytes) == RCats([k \in 1..Len(bytes) |-> ROne(bytes[k])])
RECURSIVE RBytes(_)
RBytes(x) == IF x = <<>> THEN <<>> ELSE [k \in 1..x[1][2] |-> x[1][1]] \o RBytes(Tail(x))
IsPrefixR(x, y) == RLen(x) <= RLen(y) /\ RTake(y, RLen(x)) = x

U32(n) == ROf(<<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>)
\* a length prefix as a number, or -1 when it is beyond anything acceptable
NumOf(b) == IF b[1] > 0 THEN -1 ELSE b[2] * 65536 + b[3] * 256 + b[4]

MaxMessage == 16384 + 128      \* with its length prefix
HandshakeLen == 68

\* "BitTorrent protocol"
Protocol == ROf(<<19, 66, 105, 116, 84, 111, 114, 114, 101, 110, 116, 32, 112, 114, 111, 116, 111, 99, 111, 108>>)
Hash == <<<<171, 1>>, <<0, 9>>, <<205, 9>>, <<239, 1>>>>
OwnId == <<<<45, 1>>, <<7, 18>>, <<9, 1>>>>
Handshake(hash, id) == RCats(<<Protocol, RRep(0, 7), ROne(1), hash, id>>)

----------------------------------------------------------------------------
(* A message: its kind, its numbers as bytes (v) and its payload as runs (b) *)
Msg(k, v, b) == [k |-> k, v |-> v, b |-> b]
Plain(k) == Msg(k, <<>>, <<>>)
Kinds == <<"choke", "unchoke", "interested", "notinterested", "have", "bitfield", "request", "piece", "cancel", "port">>
IdOf(k) == CHOOSE n \in 0..9 : Kinds[n + 1] = k
Body(m) == RCats(<<ROne(IdOf(m.k)), ROf(m.v), m.b>>)
Enc(m) == IF m.k = "keepalive" THEN RRep(0, 4)
          ELSE LET b == Body(m) IN RCat(U32(RLen(b)), b)

\* numbers (in bytes) that follow the id of each kind, and whether a payload may follow them
Fixed(id) == CASE id \in 0..3 -> 0 [] id = 4 -> 4 [] id = 5 -> 0 [] id \in {6, 8} -> 12 [] id = 7 -> 8 [] id = 9 -> 2
Payload(id) == id \in {5, 7}
LengthFits(id, n) == IF Payload(id) THEN n >= 1 + Fixed(id) ELSE n = 1 + Fixed(id)

(* What can be said of the first message of the bytes received:              *)
(*   "more": nothing yet; "hopeless": it can't become a message, though it   *)
(*   has not arrived in full; "bad": it is none; "skip": unknown kind; "msg" *)
Look(buf) ==
    LET have == RLen(buf)
        No(w) == [what |-> w, n |-> 0, m |-> Plain("none")]
    IN IF have < 4 THEN No("more")
       ELSE LET n == NumOf(RBytes(RTake(buf, 4)))
                id == RAt(buf, 4)
            IN IF n < 0 \/ n + 4 > MaxMessage
               THEN No(IF have >= MaxMessage THEN "bad" ELSE "hopeless")
               ELSE IF n = 0 THEN [what |-> "msg", n |-> 4, m |-> Plain("keepalive")]
               ELSE IF have = 4 THEN No("more")
               ELSE IF id \in 0..9 /\ ~LengthFits(id, n)
               THEN No(IF have >= n + 4 THEN "bad" ELSE "hopeless")
               ELSE IF have < n + 4 THEN No("more")
               ELSE IF id > 9 THEN [what |-> "skip", n |-> n + 4, m |-> Plain("none")]
               ELSE LET p == RSub(buf, 5, n - 1)
                    IN [what |-> "msg", n |-> n + 4,
                        m |-> Msg(Kinds[id + 1], RBytes(RTake(p, Fixed(id))), RDrop(p, Fixed(id)))]

\* everything the bytes received amount to: messages, what is left, and how it stands
RECURSIVE ReadAll(_, _)
ReadAll(buf, ms) ==
    LET l == Look(buf)
    IN CASE l.what = "msg" -> ReadAll(RDrop(buf, l.n), Append(ms, l.m))
         [] l.what = "skip" -> ReadAll(RDrop(buf, l.n), ms)
         [] OTHER -> [ms |-> ms, rest |-> buf, what |-> l.what]

IsBlock(m) == m.k = "piece"
IsPort(m) == m.k = "port"
OfSession(ms) == SelectSeq(ms, LAMBDA m : ~IsBlock(m) /\ ~IsPort(m))
=============================================================================
