-------------------------------- MODULE View ---------------------------------
(***************************************************************************)
(* Byte and word views of a record and the shape of its hash.              *)
(* A leaf is [i |-> bytes per item, n |-> items]; a content is, per leaf,  *)
(* the sequence of its bytes (little endian, item after item).             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
WordBytes == 4

RECURSIVE FlatFrom(_, _)
FlatFrom(ss, k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o FlatFrom(ss, k + 1)
ByteView(content) == FlatFrom(content, 1)

\* Every leaf fills whole words, zeros last.
LeafWords(bs) ==
    LET m == (Len(bs) + WordBytes - 1) \div WordBytes IN
    [w \in 1 .. m |-> [j \in 1 .. WordBytes |-> LET p == (w - 1) * WordBytes + j IN IF p <= Len(bs) THEN bs[p] ELSE 0]]
WordView(content) == FlatFrom([k \in DOMAIN content |-> LeafWords(content[k])], 1)

\* The hash reduces the set of (position, word) lanes; streaming goes leaf by leaf with a running offset.
Lanes(words) == {<<i - 1, words[i]>> : i \in DOMAIN words}
RECURSIVE StreamLanes(_, _, _)
StreamLanes(content, k, offset) ==
    IF k > Len(content) THEN {}
    ELSE LET ws == LeafWords(content[k]) IN
         {<<offset + i - 1, ws[i]>> : i \in DOMAIN ws} \cup StreamLanes(content, k + 1, offset + Len(ws))
=============================================================================
