---------------------------- MODULE SelectTrace ------------------------------
EXTENDS TraceLib, Select
VARIABLE l
vars == <<l>>
TraceInit == l = 1

StrictFails(e) ==
    IF ~(e.same /\ e.csame /\ StrictOK(e.c, e.x, e.y)) THEN Cl(e.err # "", "refuses_what_does_not_fit")
    ELSE IF e.err # "" THEN {"no_error"}
    ELSE Cl(e.out = Strict(e.c, e.x, e.y), "selects_each_element")
CloseFails(e, cl(_, _)) ==
    IF e.err # "" THEN {"no_error"}
    ELSE (IF Has(e, "out") THEN Cl(e.out = IsClose(e.x, e.y, cl), "within_tolerance") ELSE {}) \cup
         (IF Has(e, "res") THEN Cl(e.res = AllClose(e.x, e.y, cl), "all_within_tolerance") ELSE {})

Fails(e) ==
    CASE e.op = "strict" -> StrictFails(e)
      [] e.op = "close" -> LET cl(a, b) == Close(a, b, e.A, e.R, e.nan) IN CloseFails(e, cl)
      [] e.op = "default" -> CloseFails(e, CloseByDefault)
      [] e.op = "zero" -> LET cl(a, b) == CloseToZero(a) IN CloseFails(e, cl)
      [] e.op = "across" -> IF e.err # "" THEN {"no_error"} ELSE Cl(e.eq = FALSE, "other_class_not_equal") \cup Cl(e.ne = TRUE, "other_class_not_equal")
      [] e.op = "astype" -> IF e.err # "" THEN {"no_error"} ELSE Cl(e.out = Converted(e.x, e.to), "converts_every_field")
      \* questions about element types: the record's answer is the answers of its fields
      [] e.op = "can_cast" -> IF e.err # "" THEN {"no_error"} ELSE Cl(e.res = (\A f \in DOMAIN e.each : e.each[f]), "answer_of_every_field")
      [] e.op = "result_type" -> IF e.err # "" THEN {"no_error"} ELSE Cl(e.res = e.each, "answer_of_every_field")

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN IF e.op = "reset" THEN TRUE ELSE Report(l, e, Fails(e))
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
