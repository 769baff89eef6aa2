------------------------------- MODULE Reserve -------------------------------
(***************************************************************************)
(* Reserving places in a table of buckets, as one indivisible step per     *)
(* program.  Program p visits the buckets start, start+step, ... (modulo   *)
(* the number of buckets), Probe of them, and takes the lowest free slot   *)
(* of the first bucket which is not full; it fails if all are full.        *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Cap, B, Probe, P
VARIABLES occ, res, start, step, active
avars == <<occ, res, start, step, active>>
Buckets == 0 .. Cap - 1
Slots == 0 .. B - 1
Progs == 1 .. P
None == <<>>
Failed == <<Cap, 0>>
Path(p, k) == (start[p] + (k - 1) * step[p]) % Cap                      \* the k-th bucket visited
Free(set) == CHOOSE s \in Slots : s \notin set /\ \A t \in Slots : t < s => t \in set
Full(o, b) == o[b] = Slots

Claim(p) ==
    /\ active[p] /\ res[p] = None
    /\ \E k \in 1 .. Probe :
         /\ ~Full(occ, Path(p, k)) /\ \A j \in 1 .. k - 1 : Full(occ, Path(p, j))
         /\ res' = [res EXCEPT ![p] = <<Path(p, k), Free(occ[Path(p, k)])>>]
         /\ occ' = [occ EXCEPT ![Path(p, k)] = @ \cup {Free(@)}]
    /\ UNCHANGED <<start, step, active>>
GiveUp(p) ==
    /\ active[p] /\ res[p] = None
    /\ \A k \in 1 .. Probe : Full(occ, Path(p, k))
    /\ res' = [res EXCEPT ![p] = Failed]
    /\ UNCHANGED <<occ, start, step, active>>
ANext == \E p \in Progs : Claim(p) \/ GiveUp(p)
AInit == /\ res = [p \in Progs |-> None]
ASpec == AInit /\ [][ANext]_avars
=============================================================================
