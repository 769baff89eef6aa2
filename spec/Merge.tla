-------------------------------- MODULE Merge --------------------------------
(***************************************************************************)
(* Merging two ascending sequences of keys, each key with its payload.     *)
(* Positions are counted from 0 in the concatenation of the two inputs.    *)
(* Every back end (one sort, a sequential kernel, parallel kernels which   *)
(* each produce one block of the output) must give some merge; which of    *)
(* two equal keys comes first is not promised.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Ascending(s) == \A i \in 1 .. Len(s) - 1 : s[i] <= s[i + 1]
\* out: the keys in order; from: where each came from
IsPermutation(from, total) == Len(from) = total /\ {from[i] : i \in 1 .. Len(from)} = 0 .. total - 1
Follows(a, b, out, from) ==
    /\ Len(out) = Len(from)
    /\ \A i \in 1 .. Len(out) : from[i] \in 0 .. Len(a) + Len(b) - 1 /\ out[i] = (a \o b)[from[i] + 1]
IsMerge(a, b, out, from) == Ascending(out) /\ IsPermutation(from, Len(a) + Len(b)) /\ Follows(a, b, out, from)
\* One block of the output by merge path: the split of a diagonal d is the number of elements taken from a.
SplitOk(a, b, d, k) ==
    /\ k \in 0 .. Len(a) /\ d - k \in 0 .. Len(b)
    /\ (k > 0 /\ d - k < Len(b)) => a[k] <= b[d - k + 1]
    /\ (d - k > 0 /\ k < Len(a)) => b[d - k] < a[k + 1]
=============================================================================
