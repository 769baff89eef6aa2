------------------------------- MODULE MCHash -------------------------------
(***************************************************************************)
(* HashTable as a state machine: every small batch (records, validity,     *)
(* priorities) offered to every small content; addresses fresh.  Every     *)
(* transition is emitted for replay on the real table.                     *)
(***************************************************************************)
EXTENDS HashTable, TLC, Json
CONSTANTS Recs, Cap, BatchLen, Prios
VARIABLE t, pre
vars == <<t, pre>>
H == INSTANCE HashTable
Valids == [1 .. BatchLen -> BOOLEAN]
Batches == [1 .. BatchLen -> Recs]
PrioSets == [1 .. BatchLen -> Prios]

Init == t = New(Cap, FALSE) /\ pre = <<>>
Fresh(new) == CHOOSE at \in [new -> (Size(t)) .. (Size(t) + Cardinality(new) - 1)] :
                Cardinality(Range(at)) = Cardinality(new)
Insert(xs, valid, prio) ==
    LET new == NewOf(t, xs, valid) IN
    /\ MustFit(t, new)
    /\ t' = Add(t, Fresh(new))
    /\ PrintT("TR " \o ToJson([pre |-> pre, xs |-> xs, valid |-> valid, prio |-> prio,
                   ins |-> [i \in DOMAIN xs |-> IsRep(xs, valid, prio, i) /\ xs[i] \in new]]))
Seed(x) == pre = <<>> /\ t.mem = [y \in {} |-> 0] /\ pre' = <<x>> /\ t' = Add(t, Fresh({x}))
Next == \/ \E x \in Recs : Seed(x)
        \/ /\ pre # <<1, 1>> /\ pre' = <<1, 1>>
           /\ \E xs \in Batches, v \in Valids, p \in PrioSets : Insert(xs, v, p)
Spec == Init /\ [][Next]_vars

AddressesDistinct == Cardinality(Range(t.mem)) = Size(t)
WithinCap == Size(t) <= Cap
Permanent == [][\A x \in DOMAIN t.mem : x \in DOMAIN t'.mem /\ t'.mem[x] = t.mem[x]]_vars
\* every valid group has exactly one representative
OneRep == \A xs \in Batches, v \in Valids, p \in PrioSets : \A i \in DOMAIN xs :
             v[i] => Cardinality({r \in DOMAIN xs : xs[r] = xs[i] /\ IsRep(xs, v, p, r)}) = 1
ASSUME OneRep
=============================================================================
