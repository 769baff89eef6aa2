---------------------------- MODULE ReserveTrace -----------------------------
(***************************************************************************)
(* Judges runs of the real kernel on a machine that interleaves its        *)
(* programs.  Buckets and slots count from 0; occupancies are sequences of *)
(* bits, one per slot.                                                     *)
(*   reserve : e.occ0 -> e.occ1, and for every program its bucket, slot    *)
(*             and whether it was served                                   *)
(*   merge   : as in MergeTrace, made by blocks in any order; e.writers:   *)
(*             the greatest number of programs that wrote one cell         *)
(* e.fault tells of an access outside an array or of no end.               *)
(***************************************************************************)
EXTENDS Merge, Integers, TraceLib
VARIABLE l
TraceInit == l = 1
Taken(o, b) == {s \in 0 .. Len(o[b + 1]) - 1 : o[b + 1][s + 1] = 1}
All(e) == 0 .. e.b - 1
Path(e, p, k) == (e.start[p] + (k - 1) * e.step[p]) % e.cap
Progs(e) == 1 .. Len(e.start)
Served(e) == {p \in Progs(e) : e.ins[p]}
Place(e, p) == <<e.bucket[p], e.slot[p]>>
Fails(e) ==
    CASE e.op = "reserve" ->
            Cl(e.err = "", "no_error") \cup Cl(e.fault = "", "stays_inside_memory_and_ends")
            \cup (IF e.err # "" \/ e.fault # "" THEN {} ELSE
                  Cl(e.writers <= 1, "results_have_one_writer")
                  \cup Cl(\A p \in Served(e) : e.active[p], "only_the_active_are_served")
                  \cup Cl(\A p, q \in Served(e) : p # q => Place(e, p) # Place(e, q), "one_owner_per_slot")
                  \cup Cl(\A p \in Served(e) : e.bucket[p] \in 0 .. e.cap - 1 /\ e.slot[p] \in All(e) /\ e.slot[p] \notin Taken(e.occ0, e.bucket[p]), "takes_a_free_slot")
                  \cup Cl(\A b \in 0 .. e.cap - 1 : Taken(e.occ1, b) = Taken(e.occ0, b) \cup {e.slot[p] : p \in {q \in Served(e) : e.bucket[q] = b}}, "occupancy_is_what_was_taken")
                  \cup Cl(\A p \in Served(e) : \E k \in 1 .. e.probe : Path(e, p, k) = e.bucket[p] /\ \A j \in 1 .. k - 1 : Taken(e.occ1, Path(e, p, j)) = All(e), "first_bucket_with_room")
                  \cup Cl(\A p \in Progs(e) : (e.active[p] /\ ~e.ins[p]) => \A k \in 1 .. e.probe : Taken(e.occ1, Path(e, p, k)) = All(e), "fails_only_if_full")
                  \cup Cl(\A b \in 0 .. e.cap - 1 : \E n \in 0 .. e.b : Taken(e.occ1, b) = 0 .. n - 1, "slots_filled_in_order"))
      [] e.op = "merge" ->
            Cl(e.err = "", "no_error") \cup Cl(e.fault = "", "stays_inside_memory_and_ends")
            \cup (IF e.err # "" \/ e.fault # "" THEN {} ELSE
                  Cl(e.writers <= 1, "results_have_one_writer")
                  \cup Cl(Ascending(e.out) /\ IsPermutation(e.from, Len(e.a) + Len(e.b)) /\ Follows(e.a, e.b, e.out, e.from), "a_merge_in_every_order"))
      [] OTHER -> {}
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN Report(l, e, Fails(e))
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_l
View == l
=============================================================================
