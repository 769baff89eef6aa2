------------------------------ MODULE DeclTrace ------------------------------
(* Judges declarations, derived declarations, classes, constructions (C20). *)
EXTENDS TraceLib, Decl
VARIABLES l
vars == <<l>>
TraceInit == l = 1

AttrFails(want, got) ==
    UNION {Cl(got[k] = want[k], "attribute_" \o
              (CASE k = "d" -> "dtype" [] k = "s" -> "intrinsic_shape" [] k = "f" -> "fill_value" [] k = "g" -> "fill_value_factory"
                 [] k = "w" -> "bits" [] k = "p" -> "packed_bits" [] k = "u" -> "unpacked_dtype" [] k = "us" -> "unpacked_shape"
                 [] k = "v" -> "validator")) : k \in {"d", "s", "f", "g", "w", "p", "u", "us", "v"}}

Outcome(e, ok, want) ==
    IF ok THEN (IF e.err # "" THEN Cl(FALSE, "accepted") ELSE AttrFails(want, e.got) \cup Cl(e.meta = e.got, "metadata"))
    ELSE Cl(e.err # "", "refused")

PackWant(a) ==
    [d |-> "uint8", s |-> <<NumBytes(Size(PackShape(a)), a.p.v)>>, f |-> PackFill(a), g |-> a.g, w |-> NoWidth, p |-> a.p,
     u |-> PackDtype(a), us |-> PackShape(a), v |-> a.v]

Step(x, st) ==
    CASE st.op = "clone" -> IF CloneOK(st.o) THEN Clone(x, st.o) ELSE x
      [] st.op = "with" -> Clone(x, [s |-> st.s])
      [] st.op = "prefix" -> Clone(x, [s |-> st.s \o x.s])
RECURSIVE Fold(_, _)
Fold(x, p) == IF p = <<>> THEN x ELSE Fold(Step(x, p[1]), Tail(p))
\* e.outs[i]: what came out of the i-th step ("" or an error), e.got: the attributes in the end
DeriveFails(e) ==
    Cl(\A i \in DOMAIN e.p : (e.outs[i] = "") = (e.p[i].op = "clone" => CloneOK(e.p[i].o)), "derivation_accepted_or_refused") \cup
    (IF \A i \in DOMAIN e.p : (e.outs[i] = "") = (e.p[i].op = "clone" => CloneOK(e.p[i].o))
     THEN AttrFails(Fold(Declared(e.a), e.p), e.got) ELSE {}) \cup
    Cl(e.same, "original_unchanged")

ClassFails(e) ==
    IF ~ClassOK(e.a) THEN Cl(e.err # "", "class_refused")
    ELSE IF e.err # "" THEN Cl(FALSE, "class_accepted")
    ELSE Cl(e.packed = HasPacked(e.a), "aggregate_form_available") \cup
         Cl((\E i \in DOMAIN e.a.fields : e.a.fields[i] = "packed") => e.acc = HasAccessors(e.a), "field_views_available") \cup
         Cl(e.names = e.want, "fields_kept_in_order")

\* how: "init", "replace", "default": through a class with validation; "check": asked for on a class without; "free": without
MakeFails(e) ==
    IF e.how = "free" THEN
        Cl(e.err = "", "constructs_without_validation") \cup Cl(e.err # "" \/ e.kept, "arrays_kept") \cup Cl(e.calls = 0, "no_validator_runs")
    ELSE IF RecordOK(e.fs) THEN
        Cl(e.err = "", "valid_record_accepted") \cup Cl(e.err # "" \/ e.kept, "arrays_kept") \cup
        Cl(e.err # "" \/ e.calls >= Cardinality({i \in DOMAIN e.fs : e.fs[i].v # "none"}), "validators_run")
    ELSE Cl(e.err # "", "invalid_record_refused")

Fails(e) ==
    CASE e.op = "decl" -> Outcome(e, DeclOK(e.a), Declared(e.a))
      [] e.op = "pack" -> Outcome(e, PackOK(e.a), IF PackOK(e.a) THEN PackWant(e.a) ELSE e.a)
      [] e.op = "derive" -> DeriveFails(e)
      [] e.op = "class" -> ClassFails(e)
      [] e.op = "make" -> MakeFails(e)
      [] OTHER -> {}

TraceNext ==
    /\ l <= Len(Trace)
    /\ Report(l, Trace[l], Fails(Trace[l]))
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
