-------------------------------- MODULE BGPQ --------------------------------
(***************************************************************************)
(* The ideal batched priority queue (C06-C08): a bag of <<key, record>>.   *)
(* Keys are ranks (integers); INF is the padding key.                      *)
(*   [n |-> batch size, cap |-> declared capacity,                         *)
(*    bag |-> pairs held, or the most that may be held while ~exact,       *)
(*    exact |-> FALSE after an over-full insertion, until a drain shows    *)
(*    what was kept, size |-> size reported while ~exact]                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Bags, TLC

INF == 1000000
New(n, cap) == [n |-> n, cap |-> cap, bag |-> EmptyBag, exact |-> TRUE, size |-> 0]

\* the pairs of a block, padding dropped
RECURSIVE PairsFrom(_, _, _)
PairsFrom(ks, ids, i) ==
    IF i > Len(ks) THEN EmptyBag
    ELSE IF ks[i] = INF THEN PairsFrom(ks, ids, i + 1)
    ELSE (<<ks[i], ids[i]>> :> 1) (+) PairsFrom(ks, ids, i + 1)
Pairs(ks, ids) == PairsFrom(ks, ids, 1)

Count(b) == BagCardinality(b)
Sorted(ks) == \A i \in 1 .. (Len(ks) - 1) : ks[i] <= ks[i + 1]
AllAtLeast(b, k) == \A p \in BagToSet(b) : p[1] >= k
MaxKey(ks) == CHOOSE k \in {ks[i] : i \in DOMAIN ks} : \A i \in DOMAIN ks : ks[i] <= k
Finite(ks) == SelectSeq(ks, LAMBDA k : k # INF)

\* `out` (a bag of pairs with keys fk, ascending) is a choice of the m smallest pairs of b
AreSmallest(b, out, fk) ==
    /\ out \sqsubseteq b
    /\ fk # <<>> => AllAtLeast(b (-) out, MaxKey(fk))

\* insertion
Fits(q, new) == q.exact /\ Count(q.bag) + Count(new) <= q.cap
Insert(q, new, size) ==
    IF Fits(q, new) THEN [q EXCEPT !.bag = @ (+) new]
    ELSE [q EXCEPT !.bag = @ (+) new, !.exact = FALSE, !.size = size]
\* the multiset of the m smallest keys of a bag, as a set of <<key, multiplicity>>:
\* used to state that the smallest batch survives an overflow
KeyBag(b) == LET ks == {p[1] : p \in BagToSet(b)}
             IN [k \in ks |-> BagCardinality([p \in {x \in BagToSet(b) : x[1] = k} |-> b[p]])]
\* all keys of `b` below the m-th smallest are kept in `kept`, and at least m of the smallest
Below(b, k) == BagCardinality([p \in {x \in BagToSet(b) : x[1] < k} |-> b[p]])
SmallestSurvive(b, kept, m) ==
    LET kb == KeyBag(b)
        kk == KeyBag(kept)
    IN \A k \in DOMAIN kb :
          LET want == Below(b, k)            \* pairs strictly smaller
              need == IF want >= m THEN 0 ELSE IF want + kb[k] <= m THEN kb[k] ELSE m - want
          IN need > 0 => (k \in DOMAIN kk /\ kk[k] >= need)
=============================================================================
