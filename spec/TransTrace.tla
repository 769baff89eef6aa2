------------------------------ MODULE TransTrace ------------------------------
(***************************************************************************)
(* Judges recorded executions of transformed programs (C09).               *)
(* memo: what each sequence of operations answered last, and left behind,  *)
(* when each was called directly; every execution has to agree with it.    *)
(***************************************************************************)
EXTENDS TraceLib, Transform
VARIABLES l, memo
vars == <<l, memo>>
None == [k \in {} |-> ""]
TraceInit == l = 1 /\ memo = None

Key(e, n) == ToString(<<e.lane, SubSeq(e.ops, 1, n)>>)
\* "direct": the operations e.ops called one by one; e.outs the answers, e.left the contents left at the end of it all
DirectFails(e) ==
    Cl(e.err = "", "direct_call_works") \cup
    (IF e.err # "" THEN {} ELSE
     Cl(\A n \in DOMAIN e.ops : Key(e, n) \in DOMAIN memo => memo[Key(e, n)] = e.outs[n], "same_answer_again"))
RunFails(e) ==
    IF e.err # "" THEN Cl(FALSE, "transformed_program_works")
    ELSE LET os == Ops(e.p) IN
         Cl(e.outs = [n \in DOMAIN os |-> memo[ToString(<<e.lane, SubSeq(os, 1, n)>>)]], "same_answers") \cup
         Cl(e.left = memo["left" \o ToString(<<e.lane, os>>)], "same_contents_left")
Fails(e) ==
    CASE e.op = "direct" -> DirectFails(e)
      [] e.op = "run" -> RunFails(e)
      [] e.op = "kept" -> Cl(e.before = e.after, "inputs_unchanged")
      [] e.op = "trip" -> Cl(e.err = "" /\ e.before = e.after, "rebuilt_alike")
      [] OTHER -> {}
After(e) ==
    CASE e.op = "reset" -> None
      [] e.op = "direct" /\ e.err = "" ->
           ("left" \o ToString(<<e.lane, e.ops>>) :> e.left) @@
           [k \in {Key(e, n) : n \in DOMAIN e.ops} |-> e.outs[CHOOSE n \in DOMAIN e.ops : Key(e, n) = k]] @@ memo
      [] OTHER -> memo

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
       /\ Report(l, e, Fails(e))
       /\ memo' = After(e)
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
