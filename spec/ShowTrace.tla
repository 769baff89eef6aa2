------------------------------ MODULE ShowTrace ------------------------------
EXTENDS TraceLib, Show
VARIABLE l
vars == <<l>>
TraceInit == l = 1

Fails(e) ==
    IF e.err # "" THEN {"no_error"}
    ELSE CASE e.op = "batch" -> Cl(Shows(e.rows, e.s, e.max, e.half), "records_in_their_places")
                                \cup Cl(e.foreign = 0, "each_as_it_is_alone")
                                \cup Cl(e.named, "names_the_class") \cup Cl(e.shape = e.s, "tells_the_batch_shape")
           [] e.op = "single" -> Cl(e.found = e.names, "every_field_in_order") \cup Cl(\A k \in DOMAIN e.vals : e.vals[k], "value_of_every_field")
                                 \cup Cl(e.named, "names_the_class")
           [] e.op = "own" -> Cl(e.text = e.want, "uses_the_records_own_text")
           [] e.op = "unstructured" -> Cl(e.told, "tells_it_is_unstructured") \cup Cl(e.named, "names_the_class")

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN IF e.op = "reset" THEN TRUE ELSE Report(l, e, Fails(e))
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
