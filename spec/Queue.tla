------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* The bounded queue (C02).  Storage is linear: room taken by an enqueue   *)
(* is given back only by a clear, so the state is the capacity, the room   *)
(* used since the last clear, and the records held, oldest first.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Items, Caps, MaxBatch
VARIABLES cap, used, s

New(c)            == [cap |-> c, used |-> 0, s |-> <<>>]
CanPut(v, items)  == v.used + Len(items) <= v.cap
Put(v, items)     == [v EXCEPT !.s = @ \o items, !.used = @ + Len(items)]
CanTake(v, n)     == n <= Len(v.s)
Front(v, n)       == SubSeq(v.s, 1, n)
Take(v, n)        == [v EXCEPT !.s = SubSeq(@, n + 1, Len(@))]
Clear(v)          == New(v.cap)
At(v, i)          == v.s[i + 1]
Size(v)           == Len(v.s)

vars == <<cap, used, s>>
Val == [cap |-> cap, used |-> used, s |-> s]
Set(v) == cap' = v.cap /\ used' = v.used /\ s' = v.s
Batches == UNION {[1..k -> Items] : k \in 0..MaxBatch}

Init == cap \in Caps /\ used = 0 /\ s = <<>>
DoPut(b)  == CanPut(Val, b) /\ Set(Put(Val, b))
DoTake(n) == CanTake(Val, n) /\ Set(Take(Val, n))
DoClear   == Set(Clear(Val))
Next == (\E b \in Batches : DoPut(b)) \/ (\E n \in 0..MaxBatch : DoTake(n)) \/ DoClear
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
TypeOK == s \in Seq(Items) /\ Len(s) <= used /\ used <= cap
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
IsSuffix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, Len(b) - Len(a) + 1, Len(b)) = a
\* FIFO as an action property: additions at the back, removals at the front, or a clear.
FIFO == [][IsPrefix(s, s') \/ IsSuffix(s', s) \/ (s' = <<>> /\ used' = 0)]_vars
\* records leave in the order of arrival even when taken in two steps
TakeSplit == \A m, n \in 0..MaxBatch : CanTake(Val, m + n) =>
              /\ Take(Take(Val, m), n) = Take(Val, m + n)
              /\ Front(Val, m) \o Front(Take(Val, m), n) = Front(Val, m + n)
\* putting commutes with taking from a non-exhausted queue
PutTake == \A b \in Batches, n \in 0..MaxBatch : CanPut(Val, b) /\ CanTake(Val, n) =>
              Take(Put(Val, b), n) = Put(Take(Val, n), b)
=============================================================================
