------------------------------ MODULE Metainfo ------------------------------
(* Loading a torrent file (C03, C04), from its bytes to the fields in use.    *)
EXTENDS Bencode

CONSTANTS Deviations,   \* how many parts of a file deviate from a good one at a time
          PathDepth,    \* longest path
          Focus         \* which parts deviate: "names" (C03) or "fields" (C04)

VARIABLES in, out
vars == <<in, out>>
View == 0

Init == in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

\* ---- C03: names
Ordinary(c) == /\ c # <<>> /\ c # B(".") /\ c # B("..")
               /\ \A k \in 1..Len(c) : c[k] # 47 /\ c[k] # 0

\* ---- C04: a description is usable
StringList(v) == IsL(v) /\ \A k \in 1..Len(v.l) : IsS(v.l[k])
FileOk(f) == /\ IsD(f) /\ Has(f, B("path")) /\ Has(f, B("length"))
             /\ IsU64(At(f, B("length")))
             /\ StringList(At(f, B("path"))) /\ At(f, B("path")).l # <<>>
             /\ LET p == At(f, B("path")).l IN \A k \in 1..Len(p) : Ordinary(p[k].s) /\ Utf8(p[k].s)
Mode(info) == IF Has(info, B("length")) THEN "single" ELSE "multi"
FileList(info) == At(info, B("files")).l
Lengths(info) == IF Mode(info) = "single" THEN <<Strip(At(info, B("length")).i.digits)>>
                 ELSE [k \in 1..Len(FileList(info)) |-> Strip(At(FileList(info)[k], B("length")).i.digits)]
NHashes(info) == Len(At(info, B("pieces")).s) \div 20

TypesOk(info) ==
    /\ IsD(info)
    /\ \A key \in {B("name"), B("pieces"), B("piece length")} : Has(info, key)
    /\ Has(info, B("length")) # Has(info, B("files"))
    /\ IsS(At(info, B("name"))) /\ Utf8(At(info, B("name")).s) /\ Ordinary(At(info, B("name")).s)
    /\ IsU64(At(info, B("piece length"))) /\ Strip(At(info, B("piece length")).i.digits) # <<0>>
    /\ IsS(At(info, B("pieces"))) /\ Len(At(info, B("pieces")).s) % 20 = 0
    /\ IF Has(info, B("length")) THEN IsU64(At(info, B("length")))
       ELSE IsL(At(info, B("files"))) /\ \A k \in 1..Len(FileList(info)) : FileOk(FileList(info)[k])

\* the hashes are as many as the length needs; "open": nothing to store and no hashes
CountOk(info) ==
    LET pl == Strip(At(info, B("piece length")).i.digits)
        total == FoldSeq(LAMBDA x, y : Plus(x, y), <<0>>, Lengths(info))
        n == NHashes(info)
    IN  CASE NLess(U64Max, total) -> "no"
          [] total = <<0>> -> IF n = 0 THEN "open" ELSE "no"
          [] n = 0 -> "no"
          [] OTHER -> IF NLess(Times(pl, n - 1), total) /\ ~NLess(Times(pl, n), total) THEN "yes" ELSE "no"

Supported(a) == LET pre(s) == Len(a) >= Len(s) /\ SubSeq(a, 1, Len(s)) = s IN pre(B("http")) \/ pre(B("udp"))
ListedOk(v) == IsL(v) /\ \A k \in 1..Len(v.l) : StringList(v.l[k]) /\ \A j \in 1..Len(v.l[k].l) : Utf8(v.l[k].l[j].s)
Listed(v) == IF ListedOk(v) THEN UNION {{v.l[k].l[j].s : j \in 1..Len(v.l[k].l)} : k \in 1..Len(v.l)} ELSE {}
Announced(t) == {a \in (IF Has(t, B("announce")) /\ IsS(At(t, B("announce"))) THEN {At(t, B("announce")).s} ELSE {})
                       \cup (IF Has(t, B("announce-list")) THEN Listed(At(t, B("announce-list"))) ELSE {}) : Supported(a) /\ Utf8(a)}
AnnounceTypesOk(t) ==
    /\ Has(t, B("announce")) => IsS(At(t, B("announce"))) /\ Utf8(At(t, B("announce")).s)
    /\ Has(t, B("announce-list")) => ListedOk(At(t, B("announce-list")))

Err == [op |-> "load", res |-> "err"]
Fields(t, span) ==
    LET info == At(t, B("info"))
    IN  [op |-> "load", res |-> "ok",
         span |-> span,
         announce |-> SortedBytes(Announced(t)),
         name |-> At(info, B("name")).s,
         piece_length |-> Strip(At(info, B("piece length")).i.digits),
         pieces |-> At(info, B("pieces")).s,
         mode |-> Mode(info),
         lengths |-> Lengths(info),
         paths |-> IF Mode(info) = "single" THEN <<>>
                   ELSE [k \in 1..Len(FileList(info)) |->
                            LET p == At(FileList(info)[k], B("path")).l IN [j \in 1..Len(p) |-> p[j].s]]]

TwiceIn(t) == \/ Twice(t)
              \/ Has(t, B("info")) /\ LET info == At(t, B("info"))
                                      IN  IsD(info) /\ \/ Twice(info)
                                                       \/ /\ Has(info, B("files")) /\ IsL(At(info, B("files")))
                                                          /\ \E k \in 1..Len(At(info, B("files")).l) :
                                                                 IsD(At(info, B("files")).l[k]) /\ Twice(At(info, B("files")).l[k])
\* everything about the file that is not in doubt
Usable(t) == /\ IsD(t) /\ Has(t, B("info")) /\ TypesOk(At(t, B("info")))
             /\ Announced(t) # {}
             /\ CountOk(At(t, B("info"))) # "no"
             /\ ~TwiceIn(t)
\* reasons for which refusing is as good as loading
Doubtful(r) == \/ ~r.canon \/ r.depth > 8
               \/ ~AnnounceTypesOk(r.v)
               \/ CountOk(At(r.v, B("info"))) = "open"

Load(i) ==
    LET r == Parse(i.b, 1)
        whole == r.ok /\ r.n = Len(i.b) + 1
    IN  IF ~r.ok THEN out' = Err
        ELSE IF ~Usable(r.v) THEN out' = Err
        ELSE LET e == Entry(r.v, B("info"))
             IN  \/ out' = Fields(r.v, <<e[3] - 1, e[4]>>)
                 \/ (Doubtful(r) \/ ~whole) /\ out' = Err

\* storing everything: which files have bytes, relative to the download directory
Conflict(ps) == \E a, b \in DOMAIN ps : a # b /\ Len(ps[a]) <= Len(ps[b]) /\ SubSeq(ps[b], 1, Len(ps[a])) = ps[a]
Join(cs) == FoldSeq(LAMBDA x, y : IF y = <<>> THEN x ELSE y \o <<47>> \o x, <<>>, cs)
Placed(f) == IF f.mode = "single" THEN {f.name}
             ELSE {Join(<<f.name>> \o f.paths[k]) : k \in {k \in DOMAIN f.paths : f.lengths[k] # <<0>>}}
TotalOf(f) == FoldSeq(LAMBDA x, y : Plus(x, y), <<0>>, f.lengths)
Place(i) ==
    LET r == Parse(i.b, 1)
        e == Entry(r.v, B("info"))
        f == Fields(r.v, <<e[3] - 1, e[4]>>)
        err == [op |-> "place", res |-> "err"]
    IN  IF ~r.ok THEN out' = err
        ELSE IF ~Usable(r.v) THEN out' = err
        ELSE \/ /\ Conflict(f.paths) \/ NLess(Digits(1048576), TotalOf(f))
                /\ out' = [op |-> "place", res |-> "skip"]
             \/ /\ ~Conflict(f.paths) /\ ~NLess(Digits(1048576), TotalOf(f))
                /\ out' = [op |-> "place", res |-> "ok", files |-> SortedBytes(Placed(f)), stray |-> 0]
             \/ Doubtful(r) /\ out' = err

Step(i) == /\ in' = i
           /\ CASE i.op = "load" -> Load(i)
                [] i.op = "place" -> Place(i)

----------------------------------------------------------------------------
(* Files: a good one, and what may deviate in it. "-" means left out.          *)
None == [none |-> TRUE]
Pair(key, v) == IF v = None THEN <<>> ELSE << <<B(key), v>> >>
Hashes(n, extra) == VS([k \in 1..(20 * n + extra) |-> (37 * k) % 256])
File(n, p) == VD(<< <<B("length"), VI(n)>>, <<B("path"), VL([k \in 1..Len(p) |-> VS(p[k])])>> >>)

Good(single) ==
    [announce |-> VS(B("http://t/a")), list |-> None, infokey |-> TRUE,
     name |-> VS(B("nm")), pl |-> VI(16384), pieces |-> Hashes(3, 0),
     length |-> IF single THEN VI(40000) ELSE None,
     files |-> IF single THEN None ELSE VL(<<File(20000, <<B("d"), B("x")>>), File(0, <<B("y")>>), File(20000, <<B("d"), B("z")>>)>>),
     extra |-> None, alias |-> None, tail |-> "", order |-> ""]

Info(d) == LET ps == Pair("files", d.files) \o Pair("length", d.length) \o Pair("name", d.name)
                     \o Pair("name.utf-8", d.alias) \o Pair("piece length", d.pl) \o Pair("pieces", d.pieces) \o Pair("private", d.extra)
           IN  VD(CASE d.order = "swap" /\ Len(ps) > 1 -> <<ps[2], ps[1]>> \o SubSeq(ps, 3, Len(ps))
                    [] d.order = "twice" /\ Len(ps) > 1 -> <<ps[1]>> \o ps
                    [] OTHER -> ps)
Bytes(d) == LET b == Enc(VD(Pair("announce", d.announce) \o Pair("announce-list", d.list) \o Pair("comment", d.extra)
                            \o (IF d.infokey THEN Pair("info", Info(d)) ELSE <<>>) \o Pair("xx", d.extra)))
            IN  CASE d.tail = "" -> b
                  [] d.tail = "junk" -> b \o B("i1e")
                  [] d.tail = "cut1" -> SubSeq(b, 1, Len(b) - 1)
                  [] d.tail = "cut2" -> SubSeq(b, 1, Len(b) - 2)
                  [] d.tail = "half" -> SubSeq(b, 1, Len(b) \div 2)
                  [] d.tail = "empty" -> <<>>

Wrong == {VI(7), VS(B("s")), VL(<<>>), VD(<<>>), VL(<<VS(B("q"))>>)}
BigNumbers == {VBig(U64Max), VBig(Append(U64Max, 0)), VBig(<<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 6>>),
               VBig(<<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 8>>), VBig(<<4, 2, 9, 4, 9, 6, 7, 2, 9, 6>>),
               VBig(<<6, 1, 4, 8, 9, 1, 4, 6, 9, 1, 2, 3, 6, 5, 1, 7, 2, 0, 5>>), VBig(<<1, 4, 3, 1, 6, 5, 5, 7, 6, 5>>), VBig(<<1, 4, 3, 1, 6, 5, 5, 7, 6, 6>>),
               VBig(<<0, 4>>), VNeg(1), VNeg(16384), VNeg(0)}
Components == IF Focus = "fields" THEN {B("a"), B("..."), <<195, 169>>, <<255>>} ELSE
              {B("a"), <<>>, B("."), B(".."), B("..."), B(" "), B("../x"), B("a/b"), B("/a"), B("/"), <<97, 0>>, <<195, 169>>, <<255>>, B("..a")}
Paths == UNION {[1..n -> Components] : n \in 0..PathDepth}
Deep == FoldSeq(LAMBDA x, y : VL(<<y>>), VL(<<>>), [k \in 1..40 |-> k])

Choices1(single) ==
    [announce |-> {None, VS(B("udp://u:1")), VS(B("wss://w")), VS(<<>>), VS(<<104, 116, 116, 112, 255>>)} \cup Wrong,
     list |-> {VL(<<VL(<<VS(B("http://t/a")), VS(B("udp://u:1"))>>), VL(<<VS(B("https://v"))>>)>>), VL(<<>>), VL(<<VL(<<>>)>>),
               VL(<<VL(<<VS(B("wss://w"))>>)>>), VL(<<VS(B("http://x"))>>), VL(<<VL(<<VI(1)>>)>>)} \cup Wrong,
     infokey |-> {FALSE},
     name |-> {VS(B("a b")), None} \cup Wrong \cup {VS(c) : c \in Components},
     pl |-> {None, VI(0), VI(1), VI(13333), VI(13334), VI(20000), VI(19999), VI(40000), VI(65536)} \cup Wrong \cup BigNumbers,
     pieces |-> {None, Hashes(0, 0), Hashes(3, 1), Hashes(2, 19), Hashes(2, 0), Hashes(4, 0), Hashes(1, 0)} \cup Wrong,
     length |-> (IF single THEN {None} ELSE {}) \cup {VI(0), VI(1), VI(32768), VI(32769), VI(49152), VI(49153)} \cup Wrong \cup BigNumbers,
     files |-> IF single /\ Focus = "names" THEN {} ELSE (IF single THEN {} ELSE {None}) \cup Wrong
               \cup {VL(<<File(40000, p)>>) : p \in Paths}
               \cup {VL(<<File(1, <<B("a")>>), File(39999, p)>>) : p \in [1..1 -> Components]}
               \* keys other clients have invented, which mean nothing here
               \cup {VL(<<VD(<< <<B("attr"), VS(B("l"))>>, <<B("length"), VI(40000)>>, <<B("path"), VL(<<VS(B("a"))>>)>>,
                               <<B(k), VL(<<VS(c), VS(B("x"))>>)>> >>)>>) : k \in {"path.utf-8", "pathz"}, c \in Components}
               \cup {VL(<<VD(<< <<B("length"), VI(40000)>>, <<B("path"), VL(<<VS(B("a"))>>)>>, <<B("symlink path"), VL(<<VS(c)>>)>> >>)>>) : c \in Components}
               \cup {VL(<<File(40000, <<B("a")>>), f>>) : f \in Wrong \cup {VD(<< <<B("length"), VI(0)>> >>), VD(<< <<B("path"), VL(<<VS(B("b"))>>)>> >>),
                                                                         VD(<< <<B("length"), VNeg(5)>>, <<B("path"), VL(<<VS(B("b"))>>)>> >>),
                                                                         VD(<< <<B("length"), VS(B("5"))>>, <<B("path"), VL(<<VS(B("b"))>>)>> >>),
                                                                         VD(<< <<B("length"), VBig(U64Max)>>, <<B("path"), VL(<<VS(B("b"))>>)>> >>),
                                                                         VD(<< <<B("length"), VI(5)>>, <<B("path"), VS(B("b"))>> >>),
                                                                         VD(<< <<B("length"), VI(5)>>, <<B("path"), VL(<<VI(1)>>)>> >>),
                                                                         VD(<< <<B("length"), VI(5)>>, <<B("md5"), VI(1)>>, <<B("path"), VL(<<VS(B("b"))>>)>> >>)}}
               \cup {VL(<<File(0, <<B("a")>>), File(49152, <<B("a")>>)>>), VL(<<File(16384, <<B("a")>>), File(32768, <<B("a"), B("b")>>), File(1, <<B("c")>>)>>)},
     alias |-> Wrong \cup {VS(c) : c \in Components},
     extra |-> {VI(1), VS(B("zz")), VL(<<VI(1), VD(<< <<B("k"), VS(<<>>)>> >>)>>), VD(<< <<B("info"), VD(<<>>)>>, <<B("name"), VI(3)>> >>), Deep},
     tail |-> {"junk", "cut1", "cut2", "half", "empty"},
     order |-> {"swap", "twice"}]

Good2 == [s \in BOOLEAN |-> Good(s)]
Options == [s \in BOOLEAN |-> Choices1(s)]
Parts == IF Focus = "names" THEN {"name", "alias", "files"} ELSE DOMAIN Options[TRUE]
PartNo == [p \in Parts |-> CHOOSE k \in 1..Cardinality(Parts) : SetToSeq(Parts)[k] = p]
RECURSIVE Deviate(_, _, _, _)
\* from d, with n more parts deviating, all of them behind part k
Deviate(d, s, n, k) ==
    \/ \E op \in (IF Focus = "names" THEN {"load", "place"} ELSE {"load"}) : Step([op |-> op, b |-> Bytes(d)])
    \/ /\ n > 0
       /\ \E f \in Parts : /\ PartNo[f] > k
                          /\ \E v \in Options[s][f] : Deviate([d EXCEPT ![f] = v], s, n - 1, PartNo[f])
Inputs == {}
Next == \E s \in BOOLEAN : Deviate(Good2[s], s, Deviations, 0)
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
(* C03: walking the joined path as an operating system does, an accepted     *)
(* file never reaches the download directory or beyond it.                    *)
RECURSIVE Split(_, _)
Split(p, acc) == IF p = <<>> THEN <<acc>>
                 ELSE IF p[1] = 47 THEN <<acc>> \o Split(Tail(p), <<>>)
                 ELSE Split(Tail(p), Append(acc, p[1]))
Move(at, c) == IF at < 0 THEN at ELSE IF c = <<>> \/ c = B(".") THEN at ELSE IF c = B("..") THEN at - 1 ELSE at + 1
RECURSIVE Walk(_, _, _)
Walk(at, cs, least) == IF cs = <<>> THEN <<at, least>>
                       ELSE Walk(Move(at, cs[1]), Tail(cs), MinOf(least, Move(at, cs[1])))
Steps(o) == IF o.mode = "single" THEN {Split(o.name, <<>>)}
            ELSE {Split(o.name, <<>>) \o Flat([k \in 1..Len(p) |-> Split(p[k], <<>>)]) : p \in Range(o.paths)}
NeverEscapes ==
    [][out'.op = "load" /\ out'.res = "ok" =>
         \A s \in Steps(out') : LET w == Walk(0, s, 1) IN w[2] >= 1 /\ w[1] >= (IF out'.mode = "single" THEN 1 ELSE 2)]_vars
(* C04 *)
Consistent == [][out'.op = "load" /\ out'.res = "ok" =>
                   out'.pieces = <<>> \/ (Len(out'.pieces) % 20 = 0 /\ out'.piece_length # <<0>> /\ out'.announce # <<>> /\ out'.lengths # <<>>)]_vars
Whole == [][out'.op = "load" /\ out'.res = "ok" => LET s == SubSeq(in'.b, out'.span[1] + 1, out'.span[2]) IN s[1] = 100 /\ s[Len(s)] = 101]_vars
ASSUME \A d \in {Good(TRUE), Good(FALSE)} : LET r == Parse(Bytes(d), 1) IN r.ok /\ r.n = Len(Bytes(d)) + 1 /\ r.canon
=============================================================================
