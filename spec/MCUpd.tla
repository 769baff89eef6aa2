-------------------------------- MODULE MCUpd --------------------------------
(***************************************************************************)
(* Every conditional update of a small batch: all position lists (also     *)
(* outside the batch), all conditions.  Two independent readings of "the   *)
(* first true entry wins" must agree; every case is emitted for replay.    *)
(***************************************************************************)
EXTENDS Arr, TLC, Json
CONSTANTS N,       \* rows of the batch
          MaxLen   \* entries of the update
VARIABLES pos, cond
vars == <<pos, cond>>
A == [s |-> <<N>>, d |-> [n \in 1..N |-> n]]
New(n) == [k \in 1..n |-> N + k]
Init == pos = <<>> /\ cond = <<>>
Next == /\ Len(pos) < MaxLen
        /\ \E p \in -1..N, b \in BOOLEAN : pos' = Append(pos, p) /\ cond' = Append(cond, b)
        /\ PrintT("TR " \o ToJson([pos |-> pos', cond |-> cond']))
Spec == Init /\ [][Next]_vars

Vals(n) == [s |-> <<n>>, d |-> New(n)]
Y == Upd(A, 1, pos, cond, Vals(Len(pos)))
SameAsLoop == Y = UpdSeq(A, pos, cond, New(Len(pos)))
Untouched == \A p \in 0..N - 1 : (~\E k \in DOMAIN pos : pos[k] = p /\ cond[k]) => Y.d[p + 1] = A.d[p + 1]
FirstWins == \A p \in 0..N - 1, k \in DOMAIN pos :
    pos[k] = p /\ cond[k] /\ (\A j \in 1..k - 1 : pos[j] # p \/ ~cond[j]) => Y.d[p + 1] = N + k
\* entries after a decided position, and false entries, are irrelevant
Later == \A k \in DOMAIN pos : (~cond[k] \/ \E j \in 1..k - 1 : pos[j] = pos[k] /\ cond[j]) =>
    Upd(A, 1, [pos EXCEPT ![k] = -1], cond, Vals(Len(pos))) = Y
\* a batch of rank two updated by whole rows agrees row by row
Wide == LET a2 == [s |-> <<N, 2>>, d |-> [n \in 1..2 * N |-> 10 * ((n + 1) \div 2) + (n % 2)]]
            v2 == [s |-> <<Len(pos), 2>>, d |-> [n \in 1..2 * Len(pos) |-> 10 * (N + (n + 1) \div 2) + (n % 2)]]
        IN Upd(a2, 1, pos, cond, v2).d = [n \in 1..2 * N |-> 10 * Y.d[(n + 1) \div 2] + (n % 2)]
=============================================================================
