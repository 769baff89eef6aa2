------------------------------- MODULE Stack --------------------------------
(***************************************************************************)
(* The ideal bounded stack of records (C01).  A record is an opaque value. *)
(* State: the sequence of records held, bottom first, and the capacity.    *)
(* The functional operators below are the single source of truth; they are *)
(* used by the state machine (Next) and by the trace specification.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Items,      \* records
          Caps,       \* capacities
          MaxBatch    \* largest batch pushed / popped at once

VARIABLES cap, s

New(c)            == [cap |-> c, s |-> <<>>]
CanPush(v, items) == Len(v.s) + Len(items) <= v.cap
Push(v, items)    == [v EXCEPT !.s = @ \o items]
CanPop(v, n)      == n <= Len(v.s)
Top(v, n)         == SubSeq(v.s, Len(v.s) - n + 1, Len(v.s))
Pop(v, n)         == [v EXCEPT !.s = SubSeq(@, 1, Len(@) - n)]
At(v, i)          == v.s[i + 1]                 \* 0-based from the bottom
Size(v)           == Len(v.s)

vars == <<cap, s>>
Val == [cap |-> cap, s |-> s]
Set(v) == cap' = v.cap /\ s' = v.s

Batches == UNION {[1..k -> Items] : k \in 0..MaxBatch}

Init == cap \in Caps /\ s = <<>>
DoPush(items) == CanPush(Val, items) /\ Set(Push(Val, items))
DoPop(n)      == CanPop(Val, n) /\ Set(Pop(Val, n))
Next == \/ \E b \in Batches : DoPush(b)
        \/ \E n \in 0..MaxBatch : DoPop(n)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
TypeOK == s \in Seq(Items) /\ Len(s) <= cap
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* LIFO as an action property: a step either extends the sequence or keeps a prefix of it.
LIFO == [][IsPrefix(s, s') \/ IsPrefix(s', s)]_vars
\* popping what was just pushed gives it back and restores the stack
PushPop == \A b \in Batches : CanPush(Val, b) =>
              /\ Top(Push(Val, b), Len(b)) = b
              /\ Pop(Push(Val, b), Len(b)) = Val
\* popping in two steps equals popping at once
PopSplit == \A m, n \in 0..MaxBatch : CanPop(Val, m + n) =>
              /\ Pop(Pop(Val, m), n) = Pop(Val, m + n)
              /\ Top(Pop(Val, m), n) \o Top(Val, m) = Top(Val, m + n)
=============================================================================
