------------------------------- MODULE MCView --------------------------------
(***************************************************************************)
(* Laws of the views over all small layouts and contents; the layouts are  *)
(* emitted to be declared as real classes.                                 *)
(***************************************************************************)
EXTENDS View, TLC, Json
CONSTANTS MaxBytes, Alphabet, MaxLeaves, Items, Counts
VARIABLES lay, content
Leaf == [i : Items, n : Counts]
Size(l) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE S(k - 1) + (l[k].i * l[k].n) IN S(Len(l))
Layouts == {l \in UNION {[1 .. k -> Leaf] : k \in 1 .. MaxLeaves} : Size(l) <= MaxBytes}
Start(l, k) == LET RECURSIVE S(_) S(j) == IF j = 1 THEN 0 ELSE S(j - 1) + (l[j - 1].i * l[j - 1].n) IN S(k)
Split(l, bs) == [k \in DOMAIN l |-> SubSeq(bs, Start(l, k) + 1, Start(l, k) + (l[k].i * l[k].n))]
Contents(l) == {Split(l, bs) : bs \in [1 .. Size(l) -> Alphabet]}
None == <<>>
Init == lay \in Layouts /\ content = None /\ PrintT("TR " \o ToJson(lay))
Next == content = None /\ content' \in Contents(lay) /\ UNCHANGED lay
Spec == Init /\ [][Next]_<<lay, content>>

\* Views determine the content.
Injective == content # None =>
    \A d \in Contents(lay) : (d # content) => (ByteView(d) # ByteView(content) /\ WordView(d) # WordView(content))
\* Streaming reduces the same lanes as the concatenated word view.
Streams == content # None => StreamLanes(content, 1, 0) = Lanes(WordView(content))
Sizes == content # None =>
    /\ Len(ByteView(content)) = Size(lay)
    /\ Len(WordView(content)) >= Size(lay) \div WordBytes
=============================================================================
