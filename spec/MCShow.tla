------------------------------- MODULE MCShow -------------------------------
(***************************************************************************)
(* The documented layout shows what it must, for every batch shape, and    *)
(* laying out wrongly is noticed: no layout with a cell exchanged, lost or *)
(* repeated passes.  Every shape is emitted to be printed by the real code.*)
(***************************************************************************)
EXTENDS Show, TLC, Json
CONSTANTS Sizes, Deep, MaxShown, Half
VARIABLES s
vars == <<s>>
Shapes == {<<n>> : n \in Sizes} \cup {<<n, m>> : n, m \in Sizes} \cup [1..3 -> Deep] \cup [1..4 -> Deep \cap 1..2] \cup {<<>>}
Init == s \in Shapes /\ PrintT("TR " \o ToJson([s |-> s]))
Next == UNCHANGED s
Spec == Init /\ [][Next]_vars

L == Layout(s, MaxShown, Half)
Good(rows) == Shows(rows, s, MaxShown, Half)
Cells == {<<r, i>> : r \in DOMAIN L, i \in 1..50}
There == {c \in Cells : c[2] \in DOMAIN L[c[1]]}
Put(c, v) == [L EXCEPT ![c[1]][c[2]] = v]
Laws ==
    s # <<>> =>
    /\ Good(L)
    /\ (Prod(s) > 0 => \E c \in There : L[c[1]][c[2]] = 0)
    /\ (Prod(s) > 0 => \E c \in There : L[c[1]][c[2]] = Prod(s) - 1)
    \* a cell which shows another record
    /\ \A c \in There : L[c[1]][c[2]] # GAP => \A v \in {L[c[1]][c[2]] + 1, L[c[1]][c[2]] - 1} \ {GAP} : ~Good(Put(c, v))
    \* a row that is lost, or shown twice
    /\ \A r \in DOMAIN L : (\E i \in DOMAIN L[r] : L[r][i] # GAP) => ~Good([k \in 1..Len(L) - 1 |-> IF k < r THEN L[k] ELSE L[k + 1]])
    /\ \A r \in DOMAIN L : (\E i \in DOMAIN L[r] : L[r][i] # GAP) => ~Good(SubSeq(L, 1, r) \o SubSeq(L, r, Len(L)))
=============================================================================
