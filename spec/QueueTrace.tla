----------------------------- MODULE QueueTrace -----------------------------
(***************************************************************************)
(* Validates recorded histories of real queues against Queue.              *)
(* `h` is the list of all queue values created so far (values are          *)
(* immutable: an event names the value it starts from, so histories may    *)
(* branch from old values; this also checks that old values keep their     *)
(* contents).                                                              *)
(***************************************************************************)
EXTENDS TraceLib
S == INSTANCE Queue WITH Items <- {}, Caps <- {}, MaxBatch <- 0, cap <- 0, used <- 0, s <- <<>>

VARIABLES l, h
vars == <<l, h>>

TraceInit == l = 1 /\ h = <<>>

\* a read of n records: unbatched exactly when n = 1
ReadClauses(e, want) ==
    Cl(e.err = "", "no_error") \cup
    (IF e.err # "" THEN {} ELSE
       Cl(e.out = want, "records_returned") \cup
       Cl(e.single = (e.n = 1), "single_iff_one"))

SizeClause(e, v) == IF e.err # "" THEN Cl(FALSE, "no_error") ELSE Cl(e.size = S!Size(v), "size")

Fails(e) ==
    CASE e.op = "new"   -> SizeClause(e, S!New(e.cap))
      [] e.op = "enqueue"  -> SizeClause(e, S!Put(h[e.h], e.items))
      [] e.op = "dequeue"   -> ReadClauses(e, S!Front(h[e.h], e.n)) \cup
                           SizeClause(e, S!Take(h[e.h], e.n))
      [] e.op = "peek"  -> ReadClauses(e, S!Front(h[e.h], e.n)) \cup SizeClause(e, h[e.h])
      [] e.op = "get"   -> Cl(e.err = "", "no_error") \cup
                           (IF e.err # "" THEN {} ELSE
                            Cl(e.out = [k \in DOMAIN e.idx |-> S!At(h[e.h], e.idx[k])], "records_at_positions"))
      [] e.op = "size"  -> SizeClause(e, h[e.h])
      [] e.op = "clear" -> SizeClause(e, S!Clear(h[e.h]))

InScope(e) ==
    CASE e.op = "enqueue" -> S!CanPut(h[e.h], e.items)
      [] e.op \in {"dequeue", "peek"} -> S!CanTake(h[e.h], e.n)
      [] e.op = "get" -> \A k \in DOMAIN e.idx : e.idx[k] < S!Size(h[e.h])
      [] OTHER -> TRUE

Step(e) ==
    CASE e.op = "reset" -> h' = <<>>
      [] e.op = "new"   -> h' = Append(h, S!New(e.cap))
      [] e.op = "enqueue"  -> h' = Append(h, S!Put(h[e.h], e.items))
      [] e.op = "dequeue"   -> h' = Append(h, S!Take(h[e.h], e.n))
      [] e.op = "clear" -> h' = Append(h, S!Clear(h[e.h]))
      [] OTHER          -> h' = h

TraceNext ==
    /\ l <= Len(Trace)
    /\ LET e == Trace[l] IN
         /\ Assert(e.op = "reset" \/ InScope(e), <<"driver left the scope of the property", e>>)
         /\ IF e.op = "reset" THEN TRUE ELSE Report(l, e, Fails(e))
         /\ Step(e)
    /\ l' = l + 1
    /\ (l' > Len(Trace) => Done(l'))

TraceSpec == TraceInit /\ [][TraceNext]_vars
View == l
=============================================================================
