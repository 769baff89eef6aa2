----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Judges recorded histories of saving and loading (C17).  Field contents  *)
(* are sequences of [path, dtype, shape, bytes].                           *)
(***************************************************************************)
EXTENDS TraceLib, Store
VARIABLES l, files
vars == <<l, files>>
Empty == [n \in {} |-> Junk]
TraceInit == l = 1 /\ files = Empty

LoadFails(e) ==
    IF LoadOK(files, e.s, e.via)
    THEN IF e.err # "" THEN Cl(FALSE, "loads")
         ELSE Cl(e.c = files[e.s].c, "same_class") \cup
              Cl([i \in DOMAIN e.x |-> <<e.x[i].p, e.x[i].d, e.x[i].s>>] =
                 [i \in DOMAIN files[e.s].x |-> <<files[e.s].x[i].p, files[e.s].x[i].d, files[e.s].x[i].s>>], "same_dtypes_and_shapes") \cup
              Cl([i \in DOMAIN e.x |-> e.x[i].b] = [i \in DOMAIN files[e.s].x |-> files[e.s].x[i].b], "same_bytes")
    ELSE Cl(e.err # "", "refuses")

Fails(e) ==
    CASE e.op = "save" -> Cl(e.err = "", "saves")
      [] e.op = "badsave" -> Cl(e.err # "", "refuses_to_save")
      [] e.op = "load" -> LoadFails(e)
      [] e.op = "ls" -> Cl({e.names[i] : i \in DOMAIN e.names} = DOMAIN files, "files_present")
      [] OTHER -> {}

After(e) ==
    CASE e.op = "reset" -> Empty
      [] e.op = "save" /\ e.err = "" -> Save(files, e.s, [c |-> e.c, x |-> e.x])
      [] e.op = "remove" -> Remove(files, e.s)
      [] e.op = "junk" -> Save(files, e.s, Junk)
      [] e.op = "copy" /\ e.s \in DOMAIN files -> Copy(files, e.s, e.d)
      [] OTHER -> files

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       /\ Report(l, e, Fails(e))
       /\ files' = After(e)
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
