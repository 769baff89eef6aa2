------------------------------ MODULE MCQueue -------------------------------
EXTENDS Queue, TLC, Json
Em(r) == PrintT("TR " \o ToJson(r @@ [cap |-> cap, src |-> s, used |-> used, dst |-> s', used2 |-> used']))
EmitNext ==
    \/ \E b \in Batches : DoPut(b) /\ Em([op |-> "enqueue", items |-> b])
    \/ \E n \in 0..MaxBatch : DoTake(n) /\ Em([op |-> "dequeue", n |-> n])
    \/ DoClear /\ Em([op |-> "clear"])
EmitSpec == Init /\ [][EmitNext]_vars
=============================================================================
