------------------------------ MODULE MCBitPack ------------------------------
(***************************************************************************)
(* Laws of the layout.  With Exhaustive, every value assignment of every   *)
(* small layout over scaled-down words; otherwise real word sizes, probing *)
(* rows, and the layouts are emitted to be built and packed for real.      *)
(***************************************************************************)
EXTENDS BitPack, TLC, Json
CONSTANTS Exhaustive, Families, MaxBits, PairWidths
VARIABLES lay, row

Leaf(b, s) == [b |-> b, n |-> IF s = <<>> THEN 1 ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] * s[2], s |-> s]
Widths == 1 .. WordBits
Small == {[b |-> b, n |-> n, s |-> <<n>>] : b \in Widths, n \in 1 .. 2}
SmallLayouts == {l \in UNION {[1 .. k -> Small] : k \in 1 .. 3} : TotalBits(l) <= MaxBits}

Singles == {<<Leaf(b, s)>> : b \in Widths, s \in {<<>>, <<1>>, <<3>>, <<2, 3>>, <<11>>, <<40>>}}
Pairs == {<<Leaf(b, <<>>), Leaf(c, s)>> : b \in PairWidths, c \in PairWidths, s \in {<<>>, <<3>>}}
Odd == {1, 5, 8, 11, 17, 31, 32}
Triples == {<<Leaf(a, s), Leaf(b, <<2>>), Leaf(c, <<2, 2>>)>> : a \in Odd, b \in Odd, c \in Odd, s \in {<<>>, <<7>>}}
Layouts(f) == CASE f = "singles" -> Singles [] f = "pairs" -> Pairs [] f = "triples" -> Triples

Bit == {0, 1}
AllRows(l) ==
    LET st == [1 .. TotalBits(l) -> Bit] IN
    {[k \in DOMAIN l |-> [i \in 1 .. l[k].n |-> [j \in 1 .. l[k].b |-> s[OffsetOf(l, k) + (i - 1) * l[k].b + j]]]] : s \in st}
\* Probing rows: alternating values of ones and zeros, one bit set per value, and a mixed pattern.
Probe(l, p) == [k \in DOMAIN l |-> [i \in 1 .. l[k].n |-> [j \in 1 .. l[k].b |->
    CASE p = 0 -> (k + i) % 2
      [] p = 1 -> IF j = 1 + ((i + k) % l[k].b) THEN 1 ELSE 0
      [] p = 2 -> ((i * 7) + (j * j) + k) % 2]]]

None == <<>>
Init == /\ row = None
        /\ IF Exhaustive THEN lay \in SmallLayouts
           ELSE lay \in UNION {Layouts(f) : f \in Families} /\ PrintT("TR " \o ToJson(lay))
Next == /\ row = None
        /\ row' \in (IF Exhaustive THEN AllRows(lay) ELSE {Probe(lay, p) : p \in 0 .. 2})
        /\ UNCHANGED lay
Spec == Init /\ [][Next]_<<lay, row>>
Chosen == row # None

\* Unpacking inverts packing (hence distinct rows have distinct packed forms), fields do not overlap.
RoundTrip == Chosen => Unpack(lay, Packed(lay, row)) = row
Size == Chosen => LET t == TotalBits(lay) p == Packed(lay, row) IN
        /\ (Len(p.words) + Len(p.tail)) * ByteBits >= t
        /\ (Len(p.words) + Len(p.tail)) - CeilDiv(t, ByteBits) <= BytesPerWord - 3
        /\ Len(p.tail) < 3
\* The word-wise codec computes the same bits.
Words == [w \in 1 .. WordsAll(TotalBits(lay)) |-> ImplWord(lay, row, w - 1)]
MatchesImpl == Chosen =>
    LET st == Stream(lay, row) IN
    /\ \A w \in DOMAIN Words : \A j \in 1 .. WordBits : Words[w][j] = BitOr0(st, (w - 1) * WordBits + j - 1)
    /\ \A k \in DOMAIN lay : \A i \in 1 .. lay[k].n :
         ImplDecode(Words, OffsetOf(lay, k) + (i - 1) * lay[k].b, lay[k].b) = row[k][i]
\* At most one value supplies each bit of a word.
NoOverlap == \A k1, k2 \in DOMAIN lay : k1 < k2 => OffsetOf(lay, k1) + (lay[k1].b * lay[k1].n) <= OffsetOf(lay, k2)
\* Every leaf alone as a packed tensor field.
FieldRoundTrip == Chosen => \A k \in DOMAIN lay : FieldUnpack(lay[k].b, lay[k].n, FieldPack(lay[k].b, row[k])) = row[k]
FieldSize == \A k \in DOMAIN lay : LET f == FieldBytes(lay[k].b, lay[k].n) IN
    /\ f * ByteBits >= lay[k].b * lay[k].n
    /\ (f - CeilDiv(lay[k].b * lay[k].n, ByteBits)) * ByteBits < Lcm(lay[k].b, ByteBits)
=============================================================================
