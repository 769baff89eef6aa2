-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* A directory of saved records.  A file is named by its stem (saving and  *)
(* loading accept the stem with or without the .npz ending); its content   *)
(* is a record [c |-> class, x |-> fields], or Junk: anything that is not  *)
(* a saved record.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Junk == [c |-> "", x |-> <<>>]

Save(files, s, rec) == [n \in DOMAIN files \cup {s} |-> IF n = s THEN rec ELSE files[n]]
Remove(files, s) == [n \in DOMAIN files \ {s} |-> files[n]]
Copy(files, s, d) == Save(files, d, files[s])
\* Loading through class `via` ("" = through no class in particular).
LoadOK(files, s, via) == /\ s \in DOMAIN files
                         /\ files[s].c # ""
                         /\ via \in {"", files[s].c}
=============================================================================
