------------------------------ MODULE Bitmap ------------------------------
(* Piece bitmap (C25): the set of marked pieces and nothing else.            *)
EXTENDS Conf

CONSTANTS Lens,      \* lengths a bitmap is created with
          Bytes,     \* byte values used in replacements
          MaxBytes   \* longest replacement

VARIABLES len, ones, in, out
vars == <<len, ones, in, out>>
View == <<len, Sorted(ones)>>

LensDef == {0, 1, 7, 8, 9}
BytesDef == {0, 1, 85, 128, 170, 255}

NBytes(n) == (n + 7) \div 8
Bit(b, k) == (b \div 2^(7 - k)) % 2 = 1
\* the pieces a replacement marks: spare bits are no pieces
Marked(data, n) == {p \in 0..(n - 1) : Bit(data[p \div 8 + 1], p % 8)}

Obs(op, s, n, extra) == [op |-> op, len |-> n, iter |-> Sorted(s), get |-> Sorted(s), weight |-> Cardinality(s), ret |-> extra]

Init == len = 0 /\ ones = {} /\ in = [op |-> "init"] /\ out = [op |-> "init"]
Reset == len' = 0 /\ ones' = {} /\ in' = [op |-> "reset"] /\ out' = [op |-> "reset"]

New(i) == /\ len' = i.len /\ ones' = {}
          /\ out' = Obs("new", {}, i.len, TRUE)
Change(i) == /\ i.p < len
             /\ len' = len
             /\ ones' = IF i.v THEN ones \cup {i.p} ELSE ones \ {i.p}
             /\ out' = Obs("change", ones', len, i.p \in ones)
Replace(i) == /\ len' = len
              /\ ones' = IF Len(i.data) = NBytes(len) THEN Marked(i.data, len) ELSE ones
              /\ out' = Obs("replace", ones', len, Len(i.data) = NBytes(len))

Step(i) == /\ in' = i
           /\ CASE i.op = "new" -> New(i)
                [] i.op = "change" -> Change(i)
                [] i.op = "replace" -> Replace(i)

Inputs == {[op |-> "new", len |-> n] : n \in Lens}
          \cup {[op |-> "change", p |-> p, v |-> v] : p \in 0..(Max(Lens) - 1), v \in BOOLEAN}
          \cup {[op |-> "replace", data |-> d] : d \in UNION {[1..n -> Bytes] : n \in 0..MaxBytes}}
Next == \E i \in Inputs : Step(i)
Spec == Init /\ [][Next]_vars
Emit == EmitEdge(View, in', out', View')

----------------------------------------------------------------------------
InRange == ones \subseteq 0..(len - 1)
OnlyThatPiece == [][in'.op = "change" => (ones' \ {in'.p} = ones \ {in'.p} /\ (in'.p \in ones' <=> in'.v))]_vars
RefusedChangesNothing == [][(in'.op = "replace" /\ ~out'.ret) => ones' = ones]_vars
=============================================================================
