----------------------------- MODULE UniqueTrace -----------------------------
EXTENDS TraceLib, Unique
VARIABLE l
vars == <<l>>
TraceInit == l = 1

Fails(e) ==
    IF e.err # "" THEN Cl(FALSE, "no_error")
    ELSE LET want == Mask(e.x, e.valid, e.cost) IN
         Cl(Len(e.mask) = Len(e.x), "mask_length") \cup
         Cl(e.mask = want, "marks_best_copy_only") \cup
         (IF Has(e, "index") THEN Cl(IndexOK(want, e.index, IF e.size < 0 THEN Cardinality({i \in DOMAIN want : want[i]}) ELSE e.size, e.fill),
                                     "index_lists_marked_positions") ELSE {}) \cup
         (IF Has(e, "index") /\ Has(e, "inverse") /\ (e.size < 0 \/ e.size >= Len(e.x))
             THEN Cl(InverseOK(e.x, e.valid, e.cost, e.index, e.inverse), "inverse_rebuilds_batch") ELSE {})

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN IF e.op = "reset" THEN TRUE ELSE Report(l, e, Fails(e))
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
