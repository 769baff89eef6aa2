------------------------------- MODULE Unique --------------------------------
(***************************************************************************)
(* The duplicate filter (C12).  A batch is a sequence x of records (opaque *)
(* values), a validity flag per position, and a cost per position (ranks;  *)
(* INF is the infinite cost).                                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
INF == 1000000

Counts(valid, cost, i) == valid[i] /\ cost[i] < INF
Better(cost, i, j) == cost[i] < cost[j] \/ (cost[i] = cost[j] /\ i < j)
IsBest(x, valid, cost, i) ==
    /\ Counts(valid, cost, i)
    /\ \A j \in DOMAIN x : x[j] = x[i] /\ Counts(valid, cost, j) /\ j # i => Better(cost, i, j)
Mask(x, valid, cost) == [i \in DOMAIN x |-> IsBest(x, valid, cost, i)]

\* the index lists every marked position once (0-based), in whatever order; padding follows
IndexOK(mask, index, size, fill) ==
    LET n == Cardinality({i \in DOMAIN mask : mask[i]})
        k == IF n < size THEN n ELSE size
    IN /\ Len(index) = size
       /\ \A j \in 1..k : index[j] \in 0..Len(mask) - 1 /\ mask[index[j] + 1]
       /\ \A i, j \in 1..k : i # j => index[i] # index[j]
       /\ \A j \in k + 1..size : index[j] = fill
\* gathering by index and then by inverse gives back every record that counts
InverseOK(x, valid, cost, index, inverse) ==
    /\ Len(inverse) = Len(x)
    /\ \A i \in DOMAIN x : Counts(valid, cost, i) =>
         /\ inverse[i] \in 0..Len(index) - 1
         /\ index[inverse[i] + 1] \in 0..Len(x) - 1
         /\ x[index[inverse[i] + 1] + 1] = x[i]
=============================================================================
