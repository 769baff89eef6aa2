------------------------------ MODULE PackTrace ------------------------------
(***************************************************************************)
(* Judges recorded whole-record packing (C15).  State: the layout in force *)
(* and the rows (one per record of the batch, flattened) being packed.     *)
(***************************************************************************)
EXTENDS TraceLib, BitPack
VARIABLES l, lay, meta, rows, batch
vars == <<l, lay, meta, rows, batch>>
TraceInit == l = 1 /\ lay = <<>> /\ meta = <<>> /\ rows = <<>> /\ batch = <<>>

DefaultDtype(b) == IF b = 1 THEN "bool" ELSE IF b <= 8 THEN "uint8" ELSE "uint32"
Leaves(e) == [k \in DOMAIN e.leaves |-> [b |-> e.leaves[k].b, n |-> e.leaves[k].n]]
Path(k) == meta[k].path

SchemaFails(e) ==
    LET t == TotalBits(lay) IN
    Cl(e.total_bits = t, "total_bits") \cup
    Cl(e.payload_bytes = CeilDiv(t, 8), "payload_bytes") \cup
    Cl(e.words_all_len = WordsAll(t) /\ e.words_len = StoredWords(t) /\ e.tail_bytes = TailBytes(t), "word_counts") \cup
    Cl(e.storage_bytes = 4 * StoredWords(t) + TailBytes(t), "storage_bytes") \cup
    Cl(Len(e.fields) = Len(lay), "one_entry_per_field") \cup
    (IF Len(e.fields) # Len(lay) THEN {} ELSE
     UNION {LET f == e.fields[k] IN
            Cl(f.path = Path(k) /\ f.bits = lay[k].b /\ f.nvalues = lay[k].n /\ f.shape = meta[k].s, "field_entry") \cup
            Cl(f.bit_offset = OffsetOf(lay, k) /\ f.bit_len = lay[k].b * lay[k].n, "field_offsets") \cup
            Cl(f.default_dtype = DefaultDtype(lay[k].b) /\ f.declared_dtype = meta[k].d, "field_dtypes")
            : k \in DOMAIN lay})

PackFails(e) ==
    IF e.err # "" THEN Cl(FALSE, "packs")
    ELSE LET t == TotalBits(lay) IN
         Cl(e.wshape = batch \o <<StoredWords(t)>> /\ e.tshape = batch \o <<TailBytes(t)>>, "packed_shape") \cup
         Cl(e.wdtype = "uint32" /\ e.tdtype = "uint8", "packed_dtype") \cup
         Cl(Len(e.words) = Len(rows) /\ Len(e.tail) = Len(rows), "one_packed_form_per_record") \cup
         Cl(\A r \in DOMAIN rows : (r \in DOMAIN e.words /\ r \in DOMAIN e.tail) =>
                LET p == Packed(lay, rows[r]) IN e.words[r] = p.words /\ e.tail[r] = p.tail, "packed_bits")

UnpackFails(e) ==
    IF e.err # "" THEN Cl(FALSE, "unpacks")
    ELSE UNION {
        Cl(e.shapes[k] = batch \o meta[k].s, "unpacked_shape") \cup
        Cl(e.dtypes[k] = (IF e.policy = "declared" THEN meta[k].d ELSE DefaultDtype(lay[k].b)), "unpacked_dtype")
        : k \in DOMAIN lay} \cup
        Cl(e.policy = "declared" => e.original_class, "original_class") \cup
        Cl(e.rows = rows, "values_back")

FieldFails(e) ==
    IF e.err # "" THEN Cl(FALSE, "reads_field")
    ELSE LET k == CHOOSE k \in DOMAIN lay : Path(k) = e.path
             at == IF e.all THEN [i \in 1 .. lay[k].n |-> i - 1] ELSE e.at IN
         Cl(e.shape = batch \o (IF e.all THEN meta[k].s ELSE <<Len(at)>>), "field_shape") \cup
         Cl(e.dtype = (IF e.policy = "declared" THEN meta[k].d ELSE DefaultDtype(lay[k].b)), "field_dtype") \cup
         Cl(e.got = [r \in DOMAIN rows |-> [i \in DOMAIN at |-> rows[r][k][at[i] + 1]]], "field_values")

RandomFails(e) ==
    IF e.err # "" THEN Cl(FALSE, "draws")
    ELSE UNION {Cl(e.shapes[k] = e.batch \o meta[k].s /\ e.dtypes[k] = meta[k].d, "random_shape_dtype") : k \in DOMAIN lay} \cup
         Cl(\A r \in DOMAIN e.rows : \A k \in DOMAIN lay : \A i \in DOMAIN e.rows[r][k] : e.rows[r][k][i] # <<-1>>, "random_within_widths")

Fails(e) ==
    CASE e.op = "schema" -> IF e.err # "" THEN Cl(FALSE, "has_schema") ELSE SchemaFails(e)
      [] e.op = "pack" -> PackFails(e)
      [] e.op = "unpack" -> UnpackFails(e)
      [] e.op = "field" -> FieldFails(e)
      [] e.op = "random" -> RandomFails(e)
      [] OTHER -> {}

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       /\ Report(l, e, Fails(e))
       /\ lay' = (IF e.op = "layout" THEN Leaves(e) ELSE lay)
       /\ meta' = (IF e.op = "layout" THEN e.leaves ELSE meta)
       /\ rows' = (IF e.op = "put" THEN e.rows ELSE IF e.op = "choose" THEN [i \in DOMAIN e.at |-> rows[e.at[i] + 1]] ELSE rows)
       /\ batch' = (IF e.op \in {"put", "choose"} THEN e.batch ELSE batch)
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
