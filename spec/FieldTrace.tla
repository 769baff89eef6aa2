----------------------------- MODULE FieldTrace -----------------------------
(***************************************************************************)
(* Judges recorded histories of records with packed tensor fields (C16).   *)
(* State: the declared fields and a register file of records; a record is  *)
(* a batch shape and, per field, the stored bytes of every row.            *)
(***************************************************************************)
EXTENDS TraceLib, BitPack
VARIABLES l, decl, reg
vars == <<l, decl, reg>>
TraceInit == l = 1 /\ decl = <<>> /\ reg = <<>>

RECURSIVE Prod(_, _)
Prod(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * Prod(s, k + 1)
Size(batch) == Prod(batch, 1)
Flat(n, v) == [i \in 1 .. n |-> v]

\* Stored form of the given rows of field k: bit lists if packed, bytes if plain.
Store(k, given) == IF decl[k].packed THEN [r \in DOMAIN given |-> FieldPack(decl[k].b, given[r])] ELSE given
DefaultRec(batch) == [batch |-> batch, f |-> [k \in DOMAIN decl |-> Flat(Size(batch), decl[k].fill)]]
Put(rec, given) == [batch |-> rec.batch,
    f |-> [k \in DOMAIN decl |-> IF \E i \in DOMAIN given : given[i].k = k
                                 THEN LET i == CHOOSE i \in DOMAIN given : given[i].k = k IN Store(k, given[i].rows)
                                 ELSE rec.f[k]]]
Raw(rec, k, bytes) == [batch |-> rec.batch, f |-> [rec.f EXCEPT ![k] = bytes]]
Rows(rec, at, batch) == [batch |-> batch, f |-> [k \in DOMAIN decl |-> [i \in DOMAIN at |-> rec.f[k][at[i] + 1]]]]

Expect(e) ==
    CASE e.op = "default" -> DefaultRec(e.batch)
      [] e.op = "build" -> Put(DefaultRec(e.batch), e.given)
      [] e.op = "set" -> Put(reg[e.src], e.given)
      [] e.op = "raw" -> Raw(reg[e.src], e.k, e.bytes)
      [] e.op = "rows" -> Rows(reg[e.src], e.at, e.batch)
MakesRecord(e) == e.op \in {"default", "build", "set", "raw", "rows"}

\* What the record now in the register looks like from outside.
SeenFails(e, want) ==
    Cl(e.seen.batch = want.batch, "batch_shape") \cup
    UNION {LET s == e.seen.f[k] IN
           Cl(s.raw = want.f[k], IF decl[k].packed THEN "stored_bytes" ELSE "other_fields_unchanged") \cup
           Cl(s.rdtype = decl[k].d /\ s.rshape = want.batch \o decl[k].rs, "stored_dtype_and_size") \cup
           (IF ~decl[k].packed THEN {}
            ELSE Cl(s.view = [r \in DOMAIN want.f[k] |-> FieldUnpack(decl[k].b, decl[k].n, want.f[k][r])], "view_reads_back") \cup
                 Cl(s.vdtype = decl[k].ud /\ s.vshape = want.batch \o decl[k].s, "view_dtype_and_shape"))
           : k \in DOMAIN decl}

ConvFails(e) ==
    IF e.err # "" THEN Cl(FALSE, "no_error")
    ELSE Cl(e.num_bytes = FieldBytes(e.b, Len(e.vals)), "advertised_size") \cup
         Cl(e.bytes = FieldPack(e.b, e.vals), "packed_bytes") \cup
         Cl(e.bdtype = "uint8" /\ e.bshape = <<FieldBytes(e.b, Len(e.vals))>>, "packed_shape") \cup
         Cl(e.back = e.vals, "converts_back") \cup
         Cl(e.backshape = e.shape, "back_shape") \cup
         Cl(e.backdtype = (IF e.b = 1 THEN "bool" ELSE IF e.b <= 8 THEN "uint8" ELSE "uint32"), "back_dtype")

DeclFails(e) == IF e.err # "" THEN Cl(FALSE, "declares")
    ELSE UNION {IF e.fields[k].packed THEN Cl(e.fields[k].nb = FieldBytes(e.fields[k].b, e.fields[k].n), "declared_size") ELSE {} : k \in DOMAIN e.fields}

Fails(e) ==
    IF e.op = "decl" THEN DeclFails(e)
    ELSE IF e.op = "conv" THEN ConvFails(e)
    ELSE IF MakesRecord(e) THEN (IF e.err # "" THEN Cl(FALSE, "no_error") ELSE SeenFails(e, Expect(e)))
    ELSE {}

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       /\ Report(l, e, Fails(e))
       /\ decl' = (IF e.op = "decl" /\ e.err = "" THEN e.fields ELSE decl)
       /\ reg' = (IF e.op = "decl" THEN <<>> ELSE IF MakesRecord(e) THEN Append(reg, Expect(e)) ELSE reg)
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
