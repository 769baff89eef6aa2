------------------------------ MODULE ConfTrace ------------------------------
(***************************************************************************)
(* Judges answers given by differently configured processes (C10, C22).         *)
(*   say    : the answer v to question x of some kind under conf on dev    *)
(*   tryout : bringing up the part that reads switch `at` under conf       *)
(***************************************************************************)
EXTENDS Config, TraceLib
VARIABLES l, memo
vars == <<l, memo>>
TraceInit == l = 1 /\ memo = <<>>

Key(e) == <<e.kind, e.x, IF e.narrow THEN Depends(e.kind, e.dev, e.conf) ELSE "raw">>
Fails(e) ==
    CASE e.op = "say" ->
            Cl(Accepts(e.dev, e.conf) => e.err = "", "supported_setting_works")
            \cup Cl((e.err = "" /\ Key(e) \in DOMAIN memo) => memo[Key(e)] = e.v, "same_answer_under_every_setting")
      [] e.op = "tryout" ->
            Cl((Refuses(e.dev, e.at, e.conf[e.at]) /\ Asked(e.dev, e.at, e.conf)) => e.refused, "unsupported_setting_refused")
      [] OTHER -> {}
New(e) == IF e.op = "say" THEN IF e.err = "" THEN memo @@ (Key(e) :> e.v) ELSE memo ELSE IF e.op = "reset" THEN <<>> ELSE memo
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN Report(l, e, Fails(e)) /\ memo' = New(e)
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
