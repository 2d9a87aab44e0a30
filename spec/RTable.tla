------------------------------- MODULE RTable -------------------------------
(* The DHT routing table (C13, C14, C15 refresh targets, C16 save and load).  *)
(*                                                                            *)
(* Ids are XOR distances to the table's own id, W bits wide, so the own id is *)
(* 0 and bucket b < top holds the ids whose first set bit (from the left) is  *)
(* b; bucket `top` holds the own id's side.  age[n] counts clock advances     *)
(* since the last successful contact; a node is live while age < Dead.        *)
(* Each model id may stand for a group of G real nodes that share the W       *)
(* leading bits (real bucket size = K * G).                                   *)
(*                                                                            *)
(* moved: the held nodes that were admitted from their second address; who    *)
(* claims a held id from elsewhere doesn't take that node's place.            *)
EXTENDS Conf, Bitwise

CONSTANTS W, K, Dead, Persist

VARIABLES age, top, disk, moved, in, out

vars == <<age, top, disk, moved, in, out>>
View == <<age, top, disk, Sorted(moved)>>

Id == 0..(2^W - 1)
Absent == -1

\* index of the first differing bit to the own id; W when all W bits agree
FirstDiff(x) == IF x = 0 THEN W
                ELSE CHOOSE b \in 0..(W - 1) : x >= 2^(W - 1 - b) /\ x < 2^(W - b)

Bucket(x, t) == MinOf(FirstDiff(x), t)
Held(a) == {x \in Id : a[x] # Absent}
Live(a) == {x \in Id : a[x] # Absent /\ a[x] < Dead}
InBucket(a, b, t) == {x \in Held(a) : Bucket(x, t) = b}
NoFile == [kind |-> "none", top |-> 0, ids |-> {}, moved |-> {}]

Obs(op, a, m) == [op |-> op, ids |-> Sorted(Held(a)), good |-> Cardinality(Live(a)), moved |-> Sorted(m)]

Empty == [x \in Id |-> Absent]
Init == /\ age = Empty /\ top = 0 /\ moved = {}
        /\ disk = NoFile
        /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == /\ age' = Empty /\ top' = 0 /\ moved' = {}
         /\ disk' = NoFile
         /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

(* Admission.  Results of offering x to a table with ages a and t splits done: *)
(* the set of possible <<ages, splits>>.                                       *)
RECURSIVE Admit(_, _, _)
Admit(x, a, t) ==
    LET b == Bucket(x, t)
        B == InBucket(a, b, t)
        dead == B \ Live(a)
    IN  IF x \in B THEN {<<[a EXCEPT ![x] = 0], t>>}
        ELSE IF Cardinality(B) < K THEN {<<[a EXCEPT ![x] = 0], t>>}
        ELSE IF dead # {} THEN {<<[a EXCEPT ![x] = 0, ![d] = Absent], t>> : d \in dead}
        ELSE IF b = t /\ t < W THEN Admit(x, a, t + 1)
        ELSE {<<a, t>>}

Touch(i) == /\ UNCHANGED disk
            /\ \E r \in Admit(i.id, age, top) :
                  /\ age' = r[1] /\ top' = r[2]
                  /\ moved' = (moved \cap Held(age')) \cup
                                (IF "from" \in DOMAIN i /\ i.id \in Held(age') \ Held(age) THEN {i.id} ELSE {})
                  /\ out' = Obs("touch", age', moved')

Advance(i) == /\ age' = [x \in Id |-> IF age[x] = Absent THEN Absent ELSE MinOf(Dead, age[x] + 1)]
              /\ UNCHANGED <<top, disk, moved>>
              /\ out' = Obs("advance", age', moved)

\* the K live nodes closest to x, nearest first
Closest(a, x) ==
    LET s == SetToSortSeq(Live(a), LAMBDA p, q : (p ^^ x) < (q ^^ x))
    IN  SubSeq(s, 1, MinOf(K, Len(s)))

\* looking up an id: near = TRUE asks for an id that no node has
Find(i) == /\ UNCHANGED <<age, top, disk, moved>>
           /\ out' = IF ~i.near /\ i.id \in Held(age)
                     THEN [op |-> "find", kind |-> "exact", ids |-> <<i.id>>]
                     ELSE IF Live(age) = {} THEN [op |-> "find", kind |-> "none", ids |-> <<>>]
                     ELSE [op |-> "find", kind |-> "closest", ids |-> Closest(age, i.id)]

\* one refresh target per other range that has room, and the own id
Fillable(a, t) == {b \in 0..(t - 1) : Cardinality(InBucket(a, b, t) \cap Live(a)) < K}
Refresh(i) == /\ UNCHANGED <<age, top, disk, moved>>
              /\ out' = [op |-> "refresh", ranges |-> Sorted(Fillable(age, top)), own |-> 1]

\* ------------------------------------------------------------- persistence
Saved == [kind |-> "table", top |-> top, ids |-> Held(age), moved |-> moved]
Save(i) == /\ disk' = Saved
           /\ UNCHANGED <<age, top, moved>>
           /\ out' = [op |-> "save"]

\* a new process: the saved nodes are known but not (yet) live; the own id is the saved one
Load(i) == /\ UNCHANGED disk
           /\ age' = IF disk.kind = "table"
                     THEN [x \in Id |-> IF x \in disk.ids THEN Dead ELSE Absent] ELSE Empty
           /\ top' = IF disk.kind = "table" THEN disk.top ELSE 0
           /\ moved' = disk.moved
           /\ out' = [op |-> "load", same |-> disk.kind = "table", ids |-> Sorted(Held(age')), good |-> 0, moved |-> Sorted(moved')]

\* something else than a complete save is in the file's place
Damage(i) == /\ disk' = [NoFile EXCEPT !.kind = "bad"]
             /\ UNCHANGED <<age, top, moved>>
             /\ out' = [op |-> "damage"]

\* the process dies at some point of a save, or a file-system call of it fails: old or new content, decided by what a load then finds
Crash(i) == /\ UNCHANGED <<age, top, moved>>
            /\ disk' \in {disk, Saved}
            /\ out' = [op |-> "crash"]

Step(i) == /\ in' = i
           /\ CASE i.op = "touch"   -> Touch(i)
                [] i.op = "advance" -> Advance(i)
                [] i.op = "find"    -> Find(i)
                [] i.op = "refresh" -> Refresh(i)
                [] i.op = "save"    -> Save(i)
                [] i.op = "load"    -> Load(i)
                [] i.op = "damage"  -> Damage(i)
                [] i.op = "crash"   -> Crash(i)

Base == {[op |-> "touch", id |-> x] : x \in Id}
        \cup {[op |-> "advance"], [op |-> "refresh"]}
        \cup {[op |-> "find", id |-> x, near |-> n] : x \in Id, n \in BOOLEAN}
Inputs == CASE Persist = 0 -> Base
            [] Persist = 1 -> {[op |-> "touch", id |-> x] : x \in Id}
                              \cup {[op |-> "refresh"], [op |-> "save"], [op |-> "load"]}
                              \cup {[op |-> "damage", how |-> h] : h \in 0..7}
            [] Persist = 2 -> {[op |-> "touch", id |-> x] : x \in {2^(W-1)}}
                              \cup {[op |-> "save"], [op |-> "load"], [op |-> "damage", how |-> 0]}
                              \cup {[op |-> "crash", at |-> k, how |-> h] : k \in 1..10, h \in {"kill", "err"}}

Next == \E i \in Inputs : Step(i)
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
(* C13 *)
CapacityRespected == \A b \in 0..top : Cardinality(InBucket(age, b, top)) <= K
LiveNeverDisplaced == [][in'.op \in {"touch", "advance", "find", "refresh", "save"} =>
                            \A x \in Live(age) : x \in Held(age')]_vars
AtMostOneEvicted == [][in'.op = "touch" => Cardinality(Held(age) \ Held(age')) <= 1]_vars
RoomMeansAdmitted ==
    [][(in'.op = "touch" /\ (\/ Cardinality(InBucket(age, Bucket(in'.id, top), top) \cap Live(age)) < K))
          => in'.id \in Live(age')]_vars
\* an id is refused only when its final range is full of live nodes and cannot be divided further
RefusedOnlyWhenFull ==
    [][(in'.op = "touch" /\ in'.id \notin Held(age'))
          => /\ Cardinality(InBucket(age', Bucket(in'.id, top'), top') \cap Live(age')) = K
             /\ FirstDiff(in'.id) < top' \/ top' = W]_vars
\* a held node stays where it is, whoever claims its id
HeldStaysAtItsAddress == [][in'.op \in {"touch", "advance", "find", "refresh", "save"} =>
                              \A x \in Held(age) \cap Held(age') : x \in moved' <=> x \in moved]_vars
OnlySplitsWhenNeeded == [][in'.op # "touch" /\ in'.op \notin {"load", "reset"} => top' = top]_vars

(* C14 *)
FoundAreClosest ==
    [][(out'.op = "find" /\ out'.kind = "closest") =>
          /\ \A n \in 1..(Len(out'.ids) - 1) : (out'.ids[n] ^^ in'.id) < (out'.ids[n + 1] ^^ in'.id)
          /\ \A x \in Live(age) \ Range(out'.ids) :
                /\ Len(out'.ids) = K
                /\ \A y \in Range(out'.ids) : (y ^^ in'.id) < (x ^^ in'.id)]_vars

(* C16 *)
SavedIsLoaded == [][(in'.op = "load" /\ disk.kind = "table") => Held(age') = disk.ids /\ top' = disk.top /\ moved' = disk.moved]_vars
=============================================================================
