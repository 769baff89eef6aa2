----------------------------- MODULE HashTrace ------------------------------
(***************************************************************************)
(* Validates recorded histories of real hash tables against HashTable.     *)
(* h: all table values of the current history (values are immutable).      *)
(***************************************************************************)
EXTENDS TraceLib
H == INSTANCE HashTable
VARIABLES l, h
vars == <<l, h>>
TraceInit == l = 1 /\ h = <<>>

SizeClause(e, t) == Cl(e.size = H!Size(t), "size")

\* ---- single insertion
InsAdd(t, e) == IF ~H!Known(t, e.x) /\ e.ins THEN (e.x :> e.addr) ELSE << >>
InsNext(t, e) == IF e.err # "" THEN t ELSE IF ~H!Known(t, e.x) /\ e.ins THEN H!Add(t, e.x :> e.addr) ELSE t
InsFails(t, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    (IF H!Known(t, e.x)
     THEN Cl(~e.ins, "stored_record_not_inserted_again") \cup Cl(e.addr = t.mem[e.x], "address_of_stored_record")
     ELSE Cl(e.ins \/ ~H!MustFit(t, {e.x}), "inserted_while_room") \cup
          Cl(~e.ins \/ e.addr \notin H!Range(t.mem), "fresh_address"))
    \cup SizeClause(e, InsNext(t, e))

\* ---- batched insertion
Pos(e) == DOMAIN e.xs
Rep(e, i) == H!IsRep(e.xs, e.valid, e.prio, i)
Stored(t, e) == {i \in Pos(e) : e.ins[i] /\ Rep(e, i) /\ ~H!Known(t, e.xs[i])}
PAdd(t, e) == LET S == Stored(t, e)
              IN [x \in {e.xs[i] : i \in S} |-> e.addr[CHOOSE i \in S : e.xs[i] = x]]
PNext(t, e) == IF e.err # "" THEN t ELSE H!Add(t, PAdd(t, e))
PFails(t, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    IF Len(e.ins) # Len(e.xs) \/ Len(e.uniq) # Len(e.xs) \/ Len(e.addr) # Len(e.xs) THEN {"output_shape"} ELSE
    LET t2 == PNext(t, e)
        must == H!MustFit(t, H!NewOf(t, e.xs, e.valid))
        \* plain TLA+ functions computed once
        rep == [i \in Pos(e) |-> Rep(e, i)]
    IN  Cl(\A i \in Pos(e) : ~e.valid[i] => ~e.uniq[i] /\ ~e.ins[i], "invalid_never_flagged") \cup
        Cl(\A i \in Pos(e) : e.valid[i] => (e.uniq[i] <=> rep[i]), "one_right_representative") \cup
        Cl(\A i \in Pos(e) : e.ins[i] => rep[i] /\ ~H!Known(t, e.xs[i]), "inserted_only_new_representative") \cup
        Cl(must => \A i \in Pos(e) : (rep[i] /\ ~H!Known(t, e.xs[i])) => e.ins[i], "inserted_while_room") \cup
        Cl(\A i \in Pos(e) : (e.valid[i] /\ H!Known(t2, e.xs[i])) => e.addr[i] = t2.mem[e.xs[i]], "address_of_record") \cup
        Cl(H!CanAdd(t, PAdd(t, e)), "fresh_distinct_addresses") \cup
        SizeClause(e, t2)

\* ---- reads
LookFails(t, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    IF Len(e.found) # Len(e.xs) \/ Len(e.addr) # Len(e.xs) THEN {"output_shape"} ELSE
    Cl(\A i \in DOMAIN e.xs : e.valid[i] => (e.found[i] <=> H!Known(t, e.xs[i])), "found_iff_stored") \cup
    Cl(\A i \in DOMAIN e.xs : (e.valid[i] /\ e.found[i] /\ H!Known(t, e.xs[i])) => e.addr[i] = t.mem[e.xs[i]], "address_of_record")

GetFails(t, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    IF Len(e.out) # Len(e.addr) THEN {"output_shape"} ELSE
    LET inv == [a \in H!Range(t.mem) |-> CHOOSE x \in DOMAIN t.mem : t.mem[x] = a]
    IN Cl(\A i \in DOMAIN e.addr : e.addr[i] \in DOMAIN inv => e.out[i] = inv[e.addr[i]], "address_reads_back_record")

Fails(e) ==
    CASE e.op = "new"     -> Cl(e.err = "", "no_error") \cup (IF e.err = "" THEN Cl(e.size = 0, "size") ELSE {})
      [] e.op = "insert"  -> InsFails(h[e.h], e)
      [] e.op = "parallel_insert" -> PFails(h[e.h], e)
      [] e.op \in {"lookup", "lookup_parallel"} -> LookFails(h[e.h], e)
      [] e.op = "getitem" -> GetFails(h[e.h], e)
      [] e.op = "size"    -> IF e.err # "" THEN {"no_error"} ELSE SizeClause(e, h[e.h])

Step(e) ==
    CASE e.op = "reset"  -> h' = <<>>
      [] e.op = "new"    -> h' = Append(h, H!New(e.cap, e.lim))
      [] e.op = "insert" -> h' = Append(h, InsNext(h[e.h], e))
      [] e.op = "parallel_insert" -> h' = Append(h, IF e.err = "" /\ Len(e.ins) = Len(e.xs) /\ Len(e.addr) = Len(e.xs) THEN PNext(h[e.h], e) ELSE h[e.h])
      [] OTHER -> h' = h

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         /\ IF e.op = "reset" THEN TRUE ELSE Report(l, e, Fails(e))
         /\ Step(e)
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
