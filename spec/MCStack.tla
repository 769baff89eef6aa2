------------------------------ MODULE MCStack -------------------------------
\* Exhaustive model of Stack; every transition is emitted for replay.
EXTENDS Stack, TLC, Json
EmitNext ==
    \/ \E b \in Batches : DoPush(b)
         /\ PrintT("TR " \o ToJson([cap |-> cap, src |-> s, op |-> "push", items |-> b, dst |-> s']))
    \/ \E n \in 0..MaxBatch : DoPop(n)
         /\ PrintT("TR " \o ToJson([cap |-> cap, src |-> s, op |-> "pop", n |-> n, dst |-> s']))
EmitSpec == Init /\ [][EmitNext]_vars
=============================================================================
