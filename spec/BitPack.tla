------------------------------- MODULE BitPack -------------------------------
(***************************************************************************)
(* Bit-level layout of packed data.                                        *)
(* A value of width b is the sequence of its b bits, least significant     *)
(* first.  A leaf is [b |-> width, n |-> number of values]; a layout is a  *)
(* sequence of leaves; a row is, per leaf, the sequence of its n values.   *)
(* The packed form of a row is one bit stream: all values of all leaves in *)
(* order.  Bytes have ByteBits bits and words WordBits (8 and 32 in the    *)
(* code; smaller in the exhaustive model).                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS WordBits, ByteBits
BytesPerWord == WordBits \div ByteBits

CeilDiv(a, b) == (a + b - 1) \div b
Pow2[k \in 0..30] == IF k = 0 THEN 1 ELSE 2 * Pow2[k - 1]

\* ---------------------------------------------------------------- streams
LeafStream(vals, b) == [p \in 1 .. (Len(vals) * b) |-> vals[((p - 1) \div b) + 1][((p - 1) % b) + 1]]
RECURSIVE StreamFrom(_, _, _)
StreamFrom(lay, row, k) == IF k > Len(lay) THEN <<>> ELSE LeafStream(row[k], lay[k].b) \o StreamFrom(lay, row, k + 1)
Stream(lay, row) == StreamFrom(lay, row, 1)

BitOr0(st, p) == IF p >= 0 /\ p < Len(st) THEN st[p + 1] ELSE 0
RECURSIVE ByteSum(_, _, _)
ByteSum(st, p, j) == IF j = ByteBits THEN 0 ELSE (BitOr0(st, p + j) * Pow2[j]) + ByteSum(st, p, j + 1)
\* The first `len` bytes of a stream, zeros beyond its end.
Bytes(st, len) == [k \in 1 .. len |-> ByteSum(st, (k - 1) * ByteBits, 0)]
BitOf(bytes, p) == (bytes[(p \div ByteBits) + 1] \div Pow2[p % ByteBits]) % 2
ValueAt(bytes, off, b) == [j \in 1 .. b |-> BitOf(bytes, off + j - 1)]

\* ---------------------------------------------------------------- whole-record packing
RECURSIVE OffsetOf(_, _)
OffsetOf(lay, k) == IF k = 1 THEN 0 ELSE OffsetOf(lay, k - 1) + (lay[k - 1].b * lay[k - 1].n)
TotalBits(lay) == OffsetOf(lay, Len(lay) + 1)
WordsAll(t) == CeilDiv(t, WordBits)
\* A last word of which one or two bytes are used is stored as those bytes alone.
TailBytes(t) == LET r == CeilDiv(t % WordBits, ByteBits) IN IF r \in {1, 2} THEN r ELSE 0
StoredWords(t) == IF TailBytes(t) > 0 THEN WordsAll(t) - 1 ELSE WordsAll(t)
WordBytes(lay) == BytesPerWord * StoredWords(TotalBits(lay))
Packed(lay, row) ==
    LET t == TotalBits(lay)
        all == Bytes(Stream(lay, row), WordBytes(lay) + TailBytes(t)) IN
    [words |-> SubSeq(all, 1, WordBytes(lay)), tail |-> SubSeq(all, WordBytes(lay) + 1, Len(all))]
UnpackLeaf(lay, p, k) ==
    [i \in 1 .. lay[k].n |-> ValueAt(p.words \o p.tail, OffsetOf(lay, k) + (i - 1) * lay[k].b, lay[k].b)]
Unpack(lay, p) == [k \in DOMAIN lay |-> UnpackLeaf(lay, p, k)]

\* ---------------------------------------------------------------- packed tensor fields
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
\* Stored bytes: the stream of n values, padded to whole blocks of lcm(b, 8) bits (whole bytes for b = 1).
FieldBytes(b, n) ==
    IF n = 0 THEN 0
    ELSE IF b = 1 THEN CeilDiv(n, ByteBits)
    ELSE LET block == Lcm(b, ByteBits) IN CeilDiv(n * b, block) * (block \div ByteBits)
FieldPack(b, vals) == Bytes(LeafStream(vals, b), FieldBytes(b, Len(vals)))
FieldUnpack(b, n, bytes) == [i \in 1 .. n |-> ValueAt(bytes, (i - 1) * b, b)]

\* ---------------------------------------------------------------- the word-wise codec of the implementation
\* Each value contributes to the words it overlaps; bit j of word w comes from the value covering that bit.
Starts(lay) == [k \in DOMAIN lay |-> [i \in 1 .. lay[k].n |-> OffsetOf(lay, k) + (i - 1) * lay[k].b]]
WordContribs(lay, w) ==
    {<<k, i>> \in UNION {{<<k, i>> : i \in 1 .. lay[k].n} : k \in DOMAIN lay} :
        LET s == Starts(lay)[k][i] IN s < (w + 1) * WordBits /\ s + lay[k].b > w * WordBits}
ImplWord(lay, row, w) ==
    [j \in 1 .. WordBits |->
        LET pos == w * WordBits + j - 1
            cs == {c \in WordContribs(lay, w) :
                     LET s == Starts(lay)[c[1]][c[2]]
                         ostart == IF s > w * WordBits THEN s ELSE w * WordBits
                         oend == IF s + lay[c[1]].b < (w + 1) * WordBits THEN s + lay[c[1]].b ELSE (w + 1) * WordBits IN
                     ostart <= pos /\ pos < oend} IN
        IF cs = {} THEN 0 ELSE LET c == CHOOSE c \in cs : TRUE IN row[c[1]][c[2]][pos - Starts(lay)[c[1]][c[2]] + 1]]
\* The decoder shifts two neighbouring words together.
ImplDecode(words, off, b) ==
    LET w == off \div WordBits
        sh == off % WordBits
        nextw == IF w + 2 <= Len(words) THEN words[w + 2] ELSE [j \in 1 .. WordBits |-> 0] IN
    [j \in 1 .. b |-> IF sh + j - 1 < WordBits THEN words[w + 1][sh + j] ELSE nextw[sh + j - WordBits]]
=============================================================================
