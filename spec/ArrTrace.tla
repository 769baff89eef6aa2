------------------------------ MODULE ArrTrace ------------------------------
(***************************************************************************)
(* Validates recorded programs over real record batches against Arr.       *)
(* `r` holds the value of every register: the value the specification      *)
(* prescribes.  Registers are immutable, each operation makes new ones, so *)
(* later reads of old registers also check that arguments are not changed. *)
(***************************************************************************)
EXTENDS TraceLib, Arr

VARIABLES l, r
vars == <<l, r>>
TraceInit == l = 1 /\ r = <<>>

In(e, k) == Opnd(e, r, k)
Expect(e) == Result(e, r)

\* ---------------------------------------------------------------- yes/no questions about records
Answer(e) ==
    CASE e.op = "eq" -> In(e, 1) = In(e, 2)
      [] e.op = "ne" -> In(e, 1) # In(e, 2)
      [] e.op = "allclose" -> TRUE
Elementwise(e) ==
    CASE e.op = "equal" -> [n \in DOMAIN In(e, 1).d |-> In(e, 1).d[n] = In(e, 2).d[n]]
      [] e.op = "not_equal" -> [n \in DOMAIN In(e, 1).d |-> In(e, 1).d[n] # In(e, 2).d[n]]

Reported(o) ==
    Cl(o.b = o.s, "reported_batch_shape") \cup
    Cl(o.kind = Kind(o.s), "reported_kind") \cup
    Cl(o.len = Length(o.s), "reported_length") \cup
    Cl(o.nd = Len(o.s), "reported_ndim")

OneOut(o, w) ==
    IF o.bad # "" THEN Cl(FALSE, "fields_aligned")
    ELSE Cl(-1 \notin Range(o.d), "whole_records") \cup
         Cl(o.s = w.s, "batch_shape") \cup
         Cl(o.d = w.d, "records_at_positions") \cup
         (IF Has(o, "b") THEN Reported(o) ELSE {})

InScope(e) ==
    CASE e.op = "set" -> DistinctPositions(In(e, 1), e.ix)
      [] e.op = "allclose" -> In(e, 1) = In(e, 2)
      [] e.op = "refuse" -> ~Fits(e.what, e, r)
      [] OTHER -> TRUE

Fails(e) ==
    IF e.err # "" THEN Cl(FALSE, "no_error")
    ELSE CASE e.op = "refuse" -> Cl(e.refused, "refuses_what_does_not_fit")
           [] e.op \in {"eq", "ne", "allclose"} -> Cl(e.res = Answer(e), "comparison")
           [] e.op \in {"equal", "not_equal"} -> Cl(e.res = Elementwise(e), "comparison")
           [] OTHER -> LET w == Expect(e) IN
                IF Len(e.out) # Len(w) THEN Cl(FALSE, "number_of_results")
                ELSE UNION {OneOut(e.out[k], w[k]) : k \in DOMAIN w}

NoResult == {"eq", "ne", "allclose", "equal", "not_equal", "show", "refuse"}
Step(e) ==
    CASE e.op = "reset" -> r' = <<>>
      [] e.op = "put" -> r' = Append(r, [s |-> e.s, d |-> e.d])
      [] e.op \in NoResult -> r' = r
      [] OTHER -> r' = r \o Expect(e)

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         /\ e.op \in {"reset", "put"} \/ Assert(InScope(e), <<"driver left the scope of the property", e>>)
         /\ IF e.op \in {"reset", "put"} THEN TRUE ELSE Report(l, e, Fails(e))
         /\ Step(e)
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))

TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
