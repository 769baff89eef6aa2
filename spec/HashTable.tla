----------------------------- MODULE HashTable ------------------------------
(***************************************************************************)
(* The ideal hash table (C03-C05): a set of records, each with a permanent *)
(* address.  Records are opaque; addresses are numbers.                    *)
(*   [cap |-> declared capacity, lim |-> an explicit probe limit was given,*)
(*    mem |-> function from the records stored to their addresses]         *)
(* The choices the specification leaves open (which fresh address, whether *)
(* an insertion beyond the guaranteed room is refused) are parameters.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Range(f) == {f[x] : x \in DOMAIN f}
New(cap, lim) == [cap |-> cap, lim |-> lim, mem |-> [x \in {} |-> 0]]
Size(t)  == Cardinality(DOMAIN t.mem)
Known(t, x) == x \in DOMAIN t.mem
Extend(mem, add) == [x \in DOMAIN mem \cup DOMAIN add |-> IF x \in DOMAIN mem THEN mem[x] ELSE add[x]]

\* distinct records that a batch (xs, valid) would add
NewOf(t, xs, valid) == {xs[i] : i \in {j \in DOMAIN xs : valid[j] /\ ~Known(t, xs[j])}}
\* an insertion of these records must succeed entirely
MustFit(t, new) == ~t.lim /\ Size(t) + Cardinality(new) <= t.cap

\* C04: representative of the group of position i: least priority, then lowest position
Better(prio, i, j) == IF prio = <<>> THEN i < j
                      ELSE prio[i] < prio[j] \/ (prio[i] = prio[j] /\ i < j)
IsRep(xs, valid, prio, i) ==
    valid[i] /\ \A j \in DOMAIN xs : (j # i /\ valid[j] /\ xs[j] = xs[i]) => Better(prio, i, j)
RepOf(xs, valid, prio, i) ==
    CHOOSE r \in DOMAIN xs : xs[r] = xs[i] /\ IsRep(xs, valid, prio, r)

\* a set of records `done` (new ones) is stored at fresh, distinct addresses `at`
CanAdd(t, at) == /\ DOMAIN at \cap DOMAIN t.mem = {}
                 /\ Range(at) \cap Range(t.mem) = {}
                 /\ Cardinality(Range(at)) = Cardinality(DOMAIN at)
Add(t, at) == [t EXCEPT !.mem = Extend(@, at)]
=============================================================================
