----------------------------- MODULE ShapeTrace -----------------------------
(* Judges observations of batch shapes, defaults and random records (C19). *)
EXTENDS TraceLib, Shape
VARIABLES l
vars == <<l>>
TraceInit == l = 1

LookFails(e) ==
    IF e.err # "" THEN Cl(FALSE, "inspectable")
    ELSE LET b == BatchOf(e.k) IN
         Cl(e.b = b, "shape_batch") \cup
         Cl(e.bs = b, "batch_shape") \cup
         Cl(e.kind = Kind(b), "structured_type") \cup
         Cl(e.len = LenOf(b), "len") \cup
         Cl(e.nd = NdimOf(b), "ndim") \cup
         Cl(e.ds = Dtypes(e.k), "dtype") \cup
         Cl(b = UN \/ e.fs = [j \in DOMAIN e.k |-> e.k[j].i], "field_shapes") \cup
         Cl(e.want = <<-2>> \/ b = e.want, "batch_after_operation") \cup
         Cl(e.def = [j \in DOMAIN e.k |-> e.k[j].i], "default_shape")

\* Bytes of the fill value of a field that declares none.
DefFill(d) ==
    CASE d = "bool" -> <<0>>
      [] d = "uint8" -> <<255>> [] d = "uint16" -> <<255, 255>> [] d = "uint32" -> <<255, 255, 255, 255>>
      [] d = "int8" -> <<0>> [] d = "int16" -> <<0, 0>> [] d = "int32" -> <<0, 0, 0, 0>>
      [] d = "float16" -> <<0, 124>> [] d = "bfloat16" -> <<128, 127>> [] d = "float32" -> <<0, 0, 128, 127>>

\* e.x: leaves as declared [a, d, how, f] ; e.o: leaves as observed [a, d, els, all]
DefaultFails(e) ==
    IF e.err # "" THEN Cl(FALSE, "default_available")
    ELSE LET want == Leaves(Filled(e.k, e.s)) IN
         Cl([j \in DOMAIN e.o |-> e.o[j].a] = want, "default_has_requested_shape") \cup
         Cl([j \in DOMAIN e.o |-> e.o[j].d] = Dtypes(e.k), "default_has_declared_dtypes") \cup
         Cl(\A j \in DOMAIN e.o :
              CASE e.x[j].how = "none" -> {e.o[j].els[r] : r \in DOMAIN e.o[j].els} \subseteq {DefFill(e.x[j].d)}
                [] e.x[j].how = "value" -> {e.o[j].els[r] : r \in DOMAIN e.o[j].els} \subseteq {e.x[j].f}
                [] e.x[j].how = "factory" -> e.o[j].all = e.x[j].f /\ e.x[j].asked = want[j], "default_fill")

RandomFails(e) ==
    IF e.err # "" THEN Cl(FALSE, "random_available")
    ELSE LET want == Leaves(Filled(e.k, e.s)) IN
         Cl([j \in DOMAIN e.o |-> e.o[j].a] = want, "random_has_requested_shape") \cup
         Cl([j \in DOMAIN e.o |-> e.o[j].d] = Dtypes(e.k), "random_has_declared_dtypes") \cup
         Cl(e.same, "random_same_key_same_record") \cup
         Cl(e.bits < 64 \/ ~e.again, "random_other_key_other_record") \cup
         Cl(\A j \in DOMAIN e.o : e.o[j].bits < 64 \/ e.o[j].els > 1, "random_varies") \cup
         Cl(\A j \in DOMAIN e.o : e.o[j].ok, "random_values_valid")

Fails(e) ==
    CASE e.op = "look" -> LookFails(e)
      [] e.op = "default" -> DefaultFails(e)
      [] e.op = "random" -> RandomFails(e)
      [] e.op = "step" -> Cl(e.err = "", "operation_works")
      [] OTHER -> {}

TraceNext ==
    /\ l <= Len(Trace)
    /\ Report(l, Trace[l], Fails(Trace[l]))
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
