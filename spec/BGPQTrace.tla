----------------------------- MODULE BGPQTrace ------------------------------
(***************************************************************************)
(* Validates recorded histories of real priority queues against BGPQ.      *)
(* Keys are logged as ranks in the key table of the history; -5 is a key   *)
(* that was never inserted.                                                *)
(***************************************************************************)
EXTENDS TraceLib, Bags
Q == INSTANCE BGPQ
VARIABLES l, h
vars == <<l, h>>
TraceInit == l = 1 /\ h = <<>>
INF == Q!INF

\* ---- insert: block as given; size after
InsFails(q, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    LET new == Q!Pairs(e.keys, e.items)
        q2 == Q!Insert(q, new, e.size)
    IN IF q2.exact THEN Cl(e.size = Q!Count(q2.bag), "size")
       ELSE Cl(e.size <= Q!Count(q2.bag), "size_not_above_offered") \cup
            Cl(e.size >= Min2(q.cap, Q!Count(q2.bag)) \/ ~q.exact, "capacity_kept")

\* ---- delete_mins on an exact queue
Out(e) == Q!Pairs(e.keys, e.items)
DelFails(q, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    IF Len(e.keys) # q.n \/ Len(e.items) # q.n THEN {"output_shape"} ELSE
    LET fk == Q!Finite(e.keys) out == Out(e) IN
    Cl(Q!Sorted(e.keys), "ascending_then_padding") \cup
    (IF q.exact THEN
        Cl(Len(fk) = Min2(q.n, Q!Count(q.bag)), "batch_many_or_all") \cup
        Cl(out \sqsubseteq q.bag, "pairs_conserved") \cup
        Cl(~(out \sqsubseteq q.bag) \/ Q!AreSmallest(q.bag, out, fk), "smallest_keys") \cup
        Cl(e.size = Q!Count(q.bag (-) out), "size")
     ELSE Cl(out \sqsubseteq q.bag, "pairs_conserved"))

\* ---- drain: all batches taken from a copy until it was empty; keys/items concatenated
DrainFails(q, e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    LET fk == Q!Finite(e.keys) kept == Out(e) IN
    Cl(Q!Sorted(fk), "ascending_across_batches") \cup
    Cl(\A i \in DOMAIN e.counts : i < Len(e.counts) => e.counts[i] = q.n, "full_batches_until_last") \cup
    (IF q.exact THEN Cl(kept = q.bag, "pairs_conserved")
     ELSE Cl(kept \sqsubseteq q.bag, "pairs_conserved") \cup
          Cl(Q!SmallestSurvive(q.bag, kept, q.n), "smallest_batch_survives") \cup
          Cl(Q!Count(kept) = q.size, "size_is_removable") \cup
          Cl(Q!Count(kept) >= Min2(q.cap, Q!Count(q.bag)), "capacity_kept"))

\* ---- make_batched: m pairs padded to n
BatchFails(e) ==
    IF e.err # "" THEN {"no_error"} ELSE
    IF Len(e.keys) # e.n \/ Len(e.items) # e.n THEN {"output_shape"} ELSE
    LET m == Len(e.inkeys) IN
    Cl(SubSeq(e.keys, 1, m) = e.inkeys /\ SubSeq(e.items, 1, m) = e.initems, "pairs_unaltered") \cup
    Cl(\A i \in (m + 1) .. e.n : e.keys[i] = INF, "padding_is_infinite")

Fails(e) ==
    CASE e.op = "new"          -> Cl(e.err = "", "no_error") \cup Cl(e.err # "" \/ e.size = 0, "size")
      [] e.op = "insert"       -> InsFails(h[e.h], e)
      [] e.op = "delete_mins"  -> DelFails(h[e.h], e)
      [] e.op = "drain"        -> DrainFails(h[e.h], e)
      [] e.op = "make_batched" -> BatchFails(e)
      [] e.op = "size"         -> IF e.err # "" THEN {"no_error"} ELSE
                                  Cl(e.size = IF h[e.h].exact THEN Q!Count(h[e.h].bag) ELSE h[e.h].size, "size")

\* a drain of an over-full queue reveals what it holds
Resolve(q, e) == IF e.err # "" \/ q.exact THEN q ELSE [q EXCEPT !.bag = Out(e), !.exact = TRUE]
Step(e) ==
    CASE e.op = "reset"       -> h' = <<>>
      [] e.op = "new"         -> h' = Append(h, Q!New(e.n, e.cap))
      [] e.op = "insert"      -> h' = Append(h, IF e.err # "" THEN h[e.h] ELSE Q!Insert(h[e.h], Q!Pairs(e.keys, e.items), e.size))
      [] e.op = "delete_mins" -> h' = Append(h, IF e.err # "" THEN h[e.h] ELSE [h[e.h] EXCEPT !.bag = @ (-) Out(e)])
      [] e.op = "drain"       -> h' = [h EXCEPT ![e.h] = Resolve(@, e)]
      [] OTHER -> h' = h

InScope(e) == e.op = "delete_mins" => h[e.h].exact
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         /\ Assert(e.op = "reset" \/ InScope(e), <<"driver deletes from an unresolved queue", e>>)
         /\ IF e.op = "reset" THEN TRUE ELSE Report(l, e, Fails(e))
         /\ Step(e)
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
