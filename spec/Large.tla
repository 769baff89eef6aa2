------------------------------- MODULE Large --------------------------------
(***************************************************************************)
(* The containers and the duplicate filter at sizes where the quadratic    *)
(* definitions of HashTable, BGPQ and Unique cannot be evaluated.  What a  *)
(* batch should do is given by a *witness*: for every record the position  *)
(* of its best valid copy (0: it has none).  WitOK checks a witness in     *)
(* linear time; MCLarge shows, over all small batches, that WitOK admits   *)
(* exactly the representatives that HashTable and Unique define.           *)
(* Records are numbers 0..n-1; position x + 1 of a function is record x.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Before(prio, p, q) == IF prio = <<>> THEN p < q ELSE prio[p] < prio[q] \/ (prio[p] = prio[q] /\ p < q)
WitOK(xs, valid, prio, wit) ==
    /\ \A x \in DOMAIN wit : wit[x] = 0 \/ (wit[x] \in 1..Len(xs) /\ xs[wit[x]] = x - 1 /\ valid[wit[x]])
    /\ \A p \in 1..Len(xs) : valid[p] => wit[xs[p] + 1] # 0 /\ ~Before(prio, p, wit[xs[p] + 1])

\* ---- table: mem[x + 1] is the address of record x, -1 when it is not stored
Empty(n) == [x \in 1..n |-> -1]
Known(mem, x) == mem[x + 1] >= 0
Held(mem) == {x \in DOMAIN mem : mem[x] >= 0}
Addrs(mem) == {mem[x] : x \in Held(mem)}
NewIn(mem, wit) == {x \in DOMAIN wit : wit[x] # 0 /\ mem[x] < 0}
\* the records of a batch that fits are stored at the addresses reported for their best copies
Stored(mem, wit, addr, ins) ==
    [x \in DOMAIN mem |-> IF mem[x] < 0 /\ wit[x] # 0 /\ ins[wit[x]] THEN addr[wit[x]] ELSE mem[x]]
OneToOne(mem) == Cardinality(Addrs(mem)) = Cardinality(Held(mem))

\* ---- queue: key[i + 1] is the key of item i; held is the set of items in it
Ascending(s) == \A p \in 1..Len(s) - 1 : s[p] <= s[p + 1]
=============================================================================
