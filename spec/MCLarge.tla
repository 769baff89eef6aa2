------------------------------ MODULE MCLarge -------------------------------
(***************************************************************************)
(* Over every batch of up to N positions, R records, validity and          *)
(* priorities: a witness is accepted by Large iff it names, for every      *)
(* record, the representative defined by HashTable (C04) and by Unique     *)
(* (C12), and 0 exactly for records with no valid copy.                    *)
(***************************************************************************)
EXTENDS Large
H == INSTANCE HashTable
U == INSTANCE Unique
CONSTANTS N, R, PR
VARIABLES xs, valid, prio, wit
Batches == UNION {[1..n -> 0..R - 1] : n \in 0..N}
Init == /\ xs \in Batches
        /\ valid \in [DOMAIN xs -> BOOLEAN]
        /\ prio \in {<<>>} \cup [DOMAIN xs -> 0..PR - 1]
        /\ wit \in [1..R -> 0..N]
Next == UNCHANGED <<xs, valid, prio, wit>>
Spec == Init /\ [][Next]_<<xs, valid, prio, wit>>
Cost == IF prio = <<>> THEN [i \in DOMAIN xs |-> 0] ELSE prio
Right(rep(_)) == \A x \in 1..R :
    IF \E p \in DOMAIN xs : xs[p] = x - 1 /\ valid[p]
    THEN wit[x] \in DOMAIN xs /\ xs[wit[x]] = x - 1 /\ rep(wit[x])
    ELSE wit[x] = 0
HRep(p) == H!IsRep(xs, valid, prio, p)
URep(p) == U!Mask(xs, valid, Cost)[p]
Lemma == /\ WitOK(xs, valid, prio, wit) <=> Right(HRep)
         /\ WitOK(xs, valid, prio, wit) <=> Right(URep)
=============================================================================
