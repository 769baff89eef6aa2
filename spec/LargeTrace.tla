----------------------------- MODULE LargeTrace ------------------------------
(***************************************************************************)
(* Validates histories of real tables, queues and filters of more than     *)
(* 65536 positions against Large.                                          *)
(***************************************************************************)
EXTENDS TraceLib
L == INSTANCE Large
VARIABLES l, s
vars == <<l, s>>
TraceInit == l = 1 /\ s = <<>>
INF == 100000000

\* ---- table
TInsNext(t, e) == [t EXCEPT !.mem = L!Stored(@, e.wit, e.addr, e.ins)]
Sized(e) == Len(e.ins) = Len(e.xs) /\ Len(e.uniq) = Len(e.xs) /\ Len(e.addr) = Len(e.xs)
TInsFails(t, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    IF ~Sized(e) THEN {"output_shape"} ELSE
    LET t2 == TInsNext(t, e)
        new == L!NewIn(t.mem, e.wit)
        must == Cardinality(L!Held(t.mem)) + Cardinality(new) <= t.cap
        P == 1..Len(e.xs)
        rep(p) == e.valid[p] /\ e.wit[e.xs[p] + 1] = p
    IN  Cl(L!WitOK(e.xs, e.valid, e.prio, e.wit), "one_right_representative") \cup
        Cl(\A p \in P : ~e.valid[p] => ~e.uniq[p] /\ ~e.ins[p], "invalid_never_flagged") \cup
        Cl(\A p \in P : e.valid[p] => (e.uniq[p] <=> rep(p)), "one_right_representative") \cup
        Cl(\A p \in P : e.ins[p] => rep(p) /\ ~L!Known(t.mem, e.xs[p]), "inserted_only_new_representative") \cup
        Cl(must => \A p \in P : (rep(p) /\ ~L!Known(t.mem, e.xs[p])) => e.ins[p], "inserted_while_room") \cup
        Cl(\A p \in P : (e.valid[p] /\ L!Known(t2.mem, e.xs[p])) => e.addr[p] = t2.mem[e.xs[p] + 1], "address_of_record") \cup
        Cl(L!OneToOne(t2.mem), "fresh_distinct_addresses") \cup
        Cl(e.size = Cardinality(L!Held(t2.mem)), "size")
TLookFails(t, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    IF Len(e.found) # Len(e.xs) \/ Len(e.addr) # Len(e.xs) THEN {"output_shape"} ELSE
    Cl(\A p \in 1..Len(e.xs) : e.found[p] <=> L!Known(t.mem, e.xs[p]), "found_iff_stored") \cup
    Cl(\A p \in 1..Len(e.xs) : (e.found[p] /\ L!Known(t.mem, e.xs[p])) => e.addr[p] = t.mem[e.xs[p] + 1], "address_of_record")
TGetFails(t, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    IF Len(e.out) # Len(e.xs) THEN {"output_shape"} ELSE
    Cl(\A p \in 1..Len(e.xs) : t.mem[e.xs[p] + 1] = e.addr[p] => e.out[p] = e.xs[p], "address_reads_back_record")

\* ---- queue
QIns(q, e) == [q EXCEPT !.held = @ \cup {e.items[p] : p \in 1..Len(e.items)},
                        !.key = [x \in DOMAIN q.key |-> IF x - 1 \in e.lo .. e.hi - 1 THEN e.keys[x - e.lo] ELSE q.key[x]]]
Fin(e) == {p \in 1..Len(e.keys) : e.keys[p] # INF}
QOut(q, e) == {e.items[p] : p \in Fin(e)}
QDel(q, e) == IF e.err # "" THEN q ELSE [q EXCEPT !.held = @ \ QOut(q, e)]
QDelFails(q, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    IF Len(e.keys) # e.want \/ Len(e.items) # e.want THEN {"output_shape"} ELSE
    LET fin == Fin(e)
        k == Cardinality(fin)
        out == QOut(q, e)
    IN  Cl(L!Ascending(e.keys), "ascending_then_padding") \cup
        Cl(k = Min2(e.want, Cardinality(q.held)), "batch_many_or_all") \cup
        Cl(out \subseteq q.held /\ Cardinality(out) = k /\ \A p \in fin : e.items[p] + 1 \in DOMAIN q.key => q.key[e.items[p] + 1] = e.keys[p], "pairs_conserved") \cup
        Cl(k = 0 \/ fin # 1..k \/ \A x \in q.held \ out : q.key[x + 1] >= e.keys[k], "smallest_keys") \cup
        Cl(e.size = Cardinality(q.held) - k, "size")

\* ---- duplicate filter
UFails(e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    IF Len(e.mask) # Len(e.xs) THEN {"mask_length"} ELSE
    LET P == 1..Len(e.xs)
        rep(p) == e.valid[p] /\ e.wit[e.xs[p] + 1] = p
        n == Cardinality({p \in P : e.mask[p]})
    IN  Cl(L!WitOK(e.xs, e.valid, e.prio, e.wit), "marks_best_copy_only") \cup
        Cl(\A p \in P : e.mask[p] <=> rep(p), "marks_best_copy_only") \cup
        Cl(/\ Len(e.index) = n
           /\ \A j \in 1..Len(e.index) : e.index[j] + 1 \in P /\ e.mask[e.index[j] + 1]
           /\ Cardinality({e.index[j] : j \in 1..Len(e.index)}) = n, "index_lists_marked_positions") \cup
        Cl(/\ Len(e.inverse) = Len(e.xs)
           /\ \A p \in P : e.valid[p] => /\ e.inverse[p] + 1 \in 1..Len(e.index)
                                         /\ e.index[e.inverse[p] + 1] + 1 \in P
                                         /\ e.xs[e.index[e.inverse[p] + 1] + 1] = e.xs[p], "inverse_rebuilds_batch")

Fails(e) ==
    CASE e.op = "tnew"    -> Cl(e.err = "", "no_error") \cup Cl(e.err # "" \/ e.size = 0, "size")
      [] e.op = "tinsert" -> TInsFails(s[1], e)
      [] e.op = "tlookup" -> TLookFails(s[1], e)
      [] e.op = "tget"    -> TGetFails(s[1], e)
      [] e.op = "qnew"    -> Cl(e.err = "", "no_error") \cup Cl(e.err # "" \/ e.size = 0, "size")
      [] e.op = "qinsert" -> Cl(e.err = "", "no_error") \cup Cl(e.err # "" \/ e.size = Cardinality(QIns(s[1], e).held), "size")
      [] e.op = "qdelete" -> QDelFails(s[1], e)
      [] e.op = "unique"  -> UFails(e)
      [] OTHER -> {}

Next(e) ==
    CASE e.op = "tnew"    -> << [cap |-> e.cap, mem |-> L!Empty(e.n)] >>
      [] e.op = "tinsert" -> IF e.err = "" /\ Sized(e) THEN << TInsNext(s[1], e) >> ELSE s
      [] e.op = "qnew"    -> << [held |-> {}, key |-> [x \in 1..e.n |-> 0]] >>
      [] e.op = "qinsert" -> IF e.err = "" THEN << QIns(s[1], e) >> ELSE s
      [] e.op = "qdelete" -> << QDel(s[1], e) >>
      [] OTHER -> s

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l]
       IN IF e.op = "reset" THEN s' = <<>> ELSE Report(l, e, Fails(e)) /\ s' = Next(e)
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
