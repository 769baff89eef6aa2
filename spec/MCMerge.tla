------------------------------- MODULE MCMerge -------------------------------
(***************************************************************************)
(* All pairs of ascending sequences up to a length over a few keys, merged *)
(* by the protocol of the parallel kernels: every block finds its own      *)
(* starting point from the diagonal alone, and the blocks run in any       *)
(* order.  The pairs are emitted for replay.                               *)
(***************************************************************************)
EXTENDS Merge, Integers, TLC, Json
CONSTANTS Keys, MaxLen, Block
VARIABLES a, b, out, todo
vars == <<a, b, out, todo>>
Seqs == UNION {[1 .. n -> Keys] : n \in 0 .. MaxLen}
Sorted == {s \in Seqs : Ascending(s)}
Total == Len(a) + Len(b)
Blocks == {k \in 0 .. (2 * MaxLen) : k * Block < Total}
Init == /\ a \in Sorted /\ b \in Sorted /\ todo = Blocks
        /\ out = [i \in 1 .. Total |-> <<-1, -1>>]
        /\ PrintT("TR " \o ToJson([a |-> a, b |-> b]))
RECURSIVE Take(_, _, _)
Take(i, j, n) ==            \* n elements from a[i+1].., b[j+1]..
    IF n = 0 \/ (i = Len(a) /\ j = Len(b)) THEN <<>>
    ELSE IF j = Len(b) \/ (i < Len(a) /\ a[i + 1] <= b[j + 1])
         THEN <<<<a[i + 1], i>>>> \o Take(i + 1, j, n - 1)
         ELSE <<<<b[j + 1], Len(a) + j>>>> \o Take(i, j + 1, n - 1)
Run(k) ==
    /\ k \in todo
    /\ \E s \in 0 .. Len(a) :
         /\ SplitOk(a, b, k * Block, s)
         /\ LET piece == Take(s, k * Block - s, Block) IN
            out' = [i \in 1 .. Total |-> IF i > k * Block /\ i <= k * Block + Len(piece) THEN piece[i - k * Block] ELSE out[i]]
    /\ todo' = todo \ {k} /\ UNCHANGED <<a, b>>
Next == \E k \in Blocks : Run(k)
Spec == Init /\ [][Next]_vars
\* the split is unique, exists, and the blocks fit together
Splits == \A d \in 0 .. Total : Cardinality({s \in 0 .. Len(a) : SplitOk(a, b, d, s)}) = 1
Merged == todo = {} => IsMerge(a, b, [i \in 1 .. Total |-> out[i][1]], [i \in 1 .. Total |-> out[i][2]])
=============================================================================
