------------------------------- MODULE Bencode -------------------------------
(* Bencoding, on bytes: what torrent files, DHT messages and tracker          *)
(* responses are made of. A value is                                          *)
(*   [s |-> bytes], [i |-> [neg, digits]], [l |-> values], [d |-> <<key, value>> pairs]. *)
EXTENDS Conf

Alphabet == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
\* (without the quote and the backslash, codes 34 and 92)
Codes == <<32, 33>> \o [k \in 1..57 |-> 34 + k] \o [k \in 1..34 |-> 92 + k]
CodeOf == [c \in {SubSeq(Alphabet, k, k) : k \in 1..Len(Alphabet)} |->
              Codes[CHOOSE k \in 1..Len(Alphabet) : SubSeq(Alphabet, k, k) = c]]
\* the bytes of a string
B(str) == [k \in 1..Len(str) |-> CodeOf[SubSeq(str, k, k)]]

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<n>> ELSE Append(Digits(n \div 10), n % 10)
Chars(ds) == [k \in 1..Len(ds) |-> 48 + ds[k]]

VS(bytes) == [s |-> bytes]
VI(n) == [i |-> [neg |-> FALSE, digits |-> Digits(n)]]
VBig(ds) == [i |-> [neg |-> FALSE, digits |-> ds]]
VNeg(n) == [i |-> [neg |-> TRUE, digits |-> Digits(n)]]
VL(vs) == [l |-> vs]
VD(ps) == [d |-> ps]

IsS(v) == "s" \in DOMAIN v
IsI(v) == "i" \in DOMAIN v
IsL(v) == "l" \in DOMAIN v
IsD(v) == "d" \in DOMAIN v

Flat(ss) == FoldSeq(LAMBDA x, y : y \o x, <<>>, ss)

RECURSIVE Enc(_)
EncS(b) == Chars(Digits(Len(b))) \o <<58>> \o b
Enc(v) == CASE IsS(v) -> EncS(v.s)
            [] IsI(v) -> <<105>> \o (IF v.i.neg THEN <<45>> ELSE <<>>) \o Chars(v.i.digits) \o <<101>>
            [] IsL(v) -> <<108>> \o Flat([k \in 1..Len(v.l) |-> Enc(v.l[k])]) \o <<101>>
            [] IsD(v) -> <<100>> \o Flat([k \in 1..Len(v.d) |-> EncS(v.d[k][1]) \o Enc(v.d[k][2])]) \o <<101>>

RECURSIVE Less(_, _)
Less(a, b) == CASE b = <<>> -> FALSE
                [] a = <<>> -> TRUE
                [] a[1] # b[1] -> a[1] < b[1]
                [] OTHER -> Less(Tail(a), Tail(b))
SortedBytes(S) == SetToSortSeq(S, Less)

IsDigit(c) == c \in 48..57
\* position of the first byte from i on that is no digit
RECURSIVE SkipDigits(_, _)
SkipDigits(b, i) == IF i <= Len(b) /\ IsDigit(b[i]) THEN SkipDigits(b, i + 1) ELSE i

Bad == [ok |-> FALSE]
Got(v, n, canon, depth) == [ok |-> TRUE, v |-> v, n |-> n, canon |-> canon, depth |-> depth]
Small(ds) == Len(ds) <= 9
Num(ds) == FoldSeq(LAMBDA x, y : 10 * y + x, 0, ds)
NoZeros(ds) == Len(ds) = 1 \/ ds[1] # 0

\* Parse(b, i): the value that begins at byte i, and n, the index behind it. canon: written the one prescribed way.
RECURSIVE Parse(_, _), Items(_, _, _), Pairs(_, _, _)
ParseS(b, i) ==
    LET j == SkipDigits(b, i)
        ds == [k \in 1..(j - i) |-> b[i + k - 1] - 48]
    IN  IF j = i \/ j > Len(b) \/ (j <= Len(b) /\ b[j] # 58) \/ ~Small(ds) THEN Bad
        ELSE LET n == Num(ds)
             IN  IF j + n > Len(b) THEN Bad
                 ELSE Got(VS(SubSeq(b, j + 1, j + n)), j + n + 1, NoZeros(ds), 0)
ParseI(b, i) ==
    LET neg == i + 1 <= Len(b) /\ b[i + 1] = 45
        f == IF neg THEN i + 2 ELSE i + 1
        j == SkipDigits(b, f)
        ds == [k \in 1..(j - f) |-> b[f + k - 1] - 48]
    IN  IF j = f \/ j > Len(b) \/ (j <= Len(b) /\ b[j] # 101) THEN Bad
        ELSE Got([i |-> [neg |-> neg, digits |-> ds]], j + 1, NoZeros(ds) /\ ~(neg /\ ds[1] = 0), 0)
Items(b, i, acc) ==
    IF i > Len(b) THEN Bad
    ELSE IF b[i] = 101 THEN Got(VL(acc.vs), i + 1, acc.canon, acc.depth + 1)
    ELSE LET r == Parse(b, i)
         IN  IF ~r.ok THEN Bad
             ELSE Items(b, r.n, [vs |-> Append(acc.vs, r.v), canon |-> acc.canon /\ r.canon, depth |-> MaxOf(acc.depth, r.depth)])
Pairs(b, i, acc) ==
    IF i > Len(b) THEN Bad
    ELSE IF b[i] = 101 THEN Got(VD(acc.vs), i + 1, acc.canon, acc.depth + 1)
    ELSE LET k == ParseS(b, i)
         IN  IF ~k.ok THEN Bad
             ELSE LET r == Parse(b, k.n)
                      ordered == acc.vs = <<>> \/ (acc.vs # <<>> /\ Less(acc.vs[Len(acc.vs)][1], k.v.s))
                  IN  IF ~r.ok THEN Bad
                      ELSE Pairs(b, r.n, [vs |-> Append(acc.vs, <<k.v.s, r.v, k.n, r.n - 1>>),
                                          canon |-> acc.canon /\ k.canon /\ r.canon /\ ordered,
                                          depth |-> MaxOf(acc.depth, r.depth)])
Parse(b, i) ==
    IF i > Len(b) THEN Bad
    ELSE CASE b[i] = 105 -> ParseI(b, i)
           [] b[i] = 108 -> Items(b, i + 1, [vs |-> <<>>, canon |-> TRUE, depth |-> 0])
           [] b[i] = 100 -> Pairs(b, i + 1, [vs |-> <<>>, canon |-> TRUE, depth |-> 0])
           [] IsDigit(b[i]) -> ParseS(b, i)
           [] OTHER -> Bad

\* what a dictionary says about a key
Keys(d) == {d.d[k][1] : k \in 1..Len(d.d)}
Has(d, key) == key \in Keys(d)
Entry(d, key) == d.d[CHOOSE k \in 1..Len(d.d) : d.d[k][1] = key]
At(d, key) == Entry(d, key)[2]
Twice(d) == Cardinality(Keys(d)) < Len(d.d)

RECURSIVE Utf8(_)
Utf8(b) ==
    IF b = <<>> THEN TRUE
    ELSE LET c == b[1]
             cont(k, lo, hi) == Len(b) >= k /\ b[k] \in lo..hi
         IN  CASE c < 128 -> Utf8(Tail(b))
               [] c \in 194..223 -> cont(2, 128, 191) /\ Utf8(SubSeq(b, 3, Len(b)))
               [] c \in 224..239 -> /\ cont(2, IF c = 224 THEN 160 ELSE 128, IF c = 237 THEN 159 ELSE 191)
                                    /\ cont(3, 128, 191) /\ Utf8(SubSeq(b, 4, Len(b)))
               [] c \in 240..244 -> /\ cont(2, IF c = 240 THEN 144 ELSE 128, IF c = 244 THEN 143 ELSE 191)
                                    /\ cont(3, 128, 191) /\ cont(4, 128, 191) /\ Utf8(SubSeq(b, 5, Len(b)))
               [] OTHER -> FALSE

\* numbers of any size, as digits
RECURSIVE Strip(_)
Strip(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Strip(Tail(ds)) ELSE ds
NLess(a, b) == LET x == Strip(a)
                   y == Strip(b)
               IN  IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE Less(x, y)
RECURSIVE Carry(_, _, _)
\* digit values ds (each may be over 9) from the right, c carried
Carry(ds, c, acc) == IF ds = <<>> THEN Strip(Digits(c) \o acc)
                     ELSE LET x == ds[Len(ds)] + c
                          IN  Carry(SubSeq(ds, 1, Len(ds) - 1), x \div 10, <<x % 10>> \o acc)
Plus(a, b) == LET n == MaxOf(Len(a), Len(b))
                  at(s, k) == IF k > n - Len(s) THEN s[k - (n - Len(s))] ELSE 0
              IN  Carry([k \in 1..n |-> at(a, k) + at(b, k)], 0, <<>>)
Times(a, m) == Carry([k \in 1..Len(a) |-> a[k] * m], 0, <<>>)

U64Max == <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
IsU64(v) == /\ IsI(v) /\ ~v.i.neg
            /\ LET ds == Strip(v.i.digits)
               IN  Len(ds) < 20 \/ (Len(ds) = 20 /\ ~Less(U64Max, ds))
=============================================================================
