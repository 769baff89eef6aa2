------------------------------ MODULE MCUnique -------------------------------
(***************************************************************************)
(* Every small batch; the mask is compared with two independent readings:  *)
(* a fold that keeps the best copy seen so far, and the sort-based         *)
(* algorithm of the implementation (stable passes by cost, by hash         *)
(* columns, invalid last; neighbours compared; mapped back).               *)
(***************************************************************************)
EXTENDS Unique, TLC, Json
CONSTANTS MaxLen, Recs, Costs
VARIABLES x, valid, cost
vars == <<x, valid, cost>>
Init == x = <<>> /\ valid = <<>> /\ cost = <<>>
Next == /\ Len(x) < MaxLen
        /\ \E r \in Recs, v \in BOOLEAN, q \in Costs :
              x' = Append(x, r) /\ valid' = Append(valid, v) /\ cost' = Append(cost, q)
        /\ PrintT("TR " \o ToJson([x |-> x', valid |-> valid', cost |-> cost']))
Spec == Init /\ [][Next]_vars

M == Mask(x, valid, cost)
Marked == {i \in DOMAIN x : M[i]}
Live == {i \in DOMAIN x : Counts(valid, cost, i)}
\* best[r]: position of the best copy among the first n, 0 if none
RECURSIVE Best(_, _)
Best(n, r) == IF n = 0 THEN 0
              ELSE LET b == Best(n - 1, r)
                   IN IF x[n] = r /\ n \in Live /\ (b = 0 \/ cost[n] < cost[b]) THEN n ELSE b
MatchesFold == Marked = {Best(Len(x), r) : r \in Recs} \ {0}
OnePerRecord == Cardinality(Marked) = Cardinality({x[i] : i \in Live})

\* the implementation: stable sorts of a permutation, least significant key first
RECURSIVE Insert(_, _, _)
Insert(p, i, K) == IF p = <<>> THEN <<i>>
                      ELSE IF K[i] < K[Head(p)] THEN <<i>> \o p ELSE <<Head(p)>> \o Insert(Tail(p), i, K)
RECURSIVE StableSort(_, _)
StableSort(p, K) == IF p = <<>> THEN <<>>
    ELSE Insert(StableSort(SubSeq(p, 1, Len(p) - 1), K), p[Len(p)], K)
H1(i) == x[i] \div 2      \* two hash columns that only together tell records apart
H2(i) == x[i] % 2
Perm == LET p0 == [i \in DOMAIN x |-> i]
            p1 == StableSort(p0, cost)
            p2 == StableSort(p1, [i \in DOMAIN x |-> H2(i)])
            p3 == StableSort(p2, [i \in DOMAIN x |-> H1(i)])
        IN StableSort(p3, [i \in DOMAIN x |-> IF i \in Live THEN 0 ELSE 1])
Starts(k) == k = 1 \/ H1(Perm[k]) # H1(Perm[k - 1]) \/ H2(Perm[k]) # H2(Perm[k - 1])
ImplMarked == {Perm[k] : k \in {j \in DOMAIN x : (Perm[j] \in Live) /\ Starts(j)}}
MatchesImpl == ImplMarked = Marked
\* changing what does not count changes nothing
Irrelevant == \A i \in DOMAIN x \ Live, r \in Recs : Mask([x EXCEPT ![i] = r], valid, cost) = M
=============================================================================
