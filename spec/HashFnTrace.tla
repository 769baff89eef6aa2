----------------------------- MODULE HashFnTrace -----------------------------
(***************************************************************************)
(* Judges observed hashes and views (C18).  The hash is an uninterpreted   *)
(* function of content and seed: `memo` keeps what has been seen and every *)
(* later observation has to agree, whatever way it was made.  Views must   *)
(* also be injective; `back` keeps the content seen for a view.            *)
(***************************************************************************)
EXTENDS TraceLib
VARIABLES l, memo, back
vars == <<l, memo, back>>
TraceInit == l = 1 /\ memo = <<>> /\ back = <<>>

\* What an observation says: a sequence of <<quantity, value>> pairs.
Keyed(e, q) == IF q \in {"bytes", "words"} THEN <<q, e.x>> ELSE <<q, e.x, e.seed>>
Says(e) == {<<Keyed(e, e.q[i]), e.v[i]>> : i \in DOMAIN e.q}
Views(e) == {i \in DOMAIN e.q : e.q[i] \in {"bytes", "words"}}

Fails(e) ==
    IF e.op # "obs" THEN {}
    ELSE IF e.err # "" THEN Cl(FALSE, "hashes")
    ELSE Cl(\A i, j \in DOMAIN e.q : e.q[i] = e.q[j] => e.v[i] = e.v[j], "entry_points_agree") \cup
         Cl(\A i \in DOMAIN e.q : LET k == Keyed(e, e.q[i]) IN k \in DOMAIN memo => memo[k] = e.v[i], "same_content_same_hash") \cup
         Cl(\A i \in Views(e) : LET k == <<e.q[i], e.v[i]>> IN k \in DOMAIN back => back[k] = e.x, "views_tell_records_apart")

New(e) == [k \in {p[1] : p \in Says(e)} |-> (CHOOSE p \in Says(e) : p[1] = k)[2]]
NewBack(e) == [k \in {<<e.q[i], e.v[i]>> : i \in Views(e)} |-> e.x]

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       /\ Report(l, e, Fails(e))
       /\ memo' = (IF e.op = "reset" THEN <<>> ELSE IF e.err # "" THEN memo ELSE memo @@ New(e))
       /\ back' = (IF e.op = "reset" THEN <<>> ELSE IF e.err # "" THEN back ELSE back @@ NewBack(e))
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
