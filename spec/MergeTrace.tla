------------------------------ MODULE MergeTrace -----------------------------
(***************************************************************************)
(* Judges merges made by the real back ends.                               *)
(*   merge : e.a, e.b the inputs (keys as ranks, ascending), e.out the     *)
(*           merged keys, e.from where each element came from - reported   *)
(*           by the back end, or read off the payload that travelled along *)
(***************************************************************************)
EXTENDS Merge, Integers, TraceLib
VARIABLE l
TraceInit == l = 1
Fails(e) ==
    CASE e.op = "merge" ->
            Cl(e.err = "", "merge_works")
            \cup (IF e.err # "" THEN {} ELSE
                  Cl(Ascending(e.out), "merged_keys_ascend")
                  \cup Cl(IsPermutation(e.from, Len(e.a) + Len(e.b)), "nothing_lost_or_repeated")
                  \cup Cl(Follows(e.a, e.b, e.out, e.from), "payload_follows_key")
                  \cup Cl(e.whole, "payload_intact"))
      [] OTHER -> {}
TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN Report(l, e, Fails(e))
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))
TraceSpec == TraceInit /\ [][TraceNext]_l
View == l
=============================================================================
