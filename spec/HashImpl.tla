------------------------------ MODULE HashImpl ------------------------------
(***************************************************************************)
(* Implementation-shaped model of the bucketed double-hash table.          *)
(*                                                                         *)
(* B buckets (a power of two) of K slots.  Item i starts probing at bucket *)
(* start[i] and moves on by the odd step[i].  A lookup walks the chain,    *)
(* stops at a match or at the first bucket that is not full, and never     *)
(* probes more than Limit slots.  A batched insertion runs in rounds: all  *)
(* items claim a slot, the lowest position of the batch wins a contested   *)
(* slot, losers move one slot on, or to the fill level of the next bucket  *)
(* on their chain; an item that won may be displaced again in a later      *)
(* round by a lower position that arrives.                                 *)
(*                                                                         *)
(* Items are numbered in the order in which they are drawn, which loses no *)
(* generality: start and step are arbitrary.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS B, K, N, Limit,      \* Limit = B * K is the default probe limit
          RoundCap,
          MaxBatch,            \* largest batch
          MinRounds,           \* print only histories in which some batch used this many rounds
          EMIT                 \* print a history at every quiescent end state

VARIABLES start, step,         \* the hash functions, chosen when an item is drawn
          tab,                 \* [bucket -> sequence of items], slots are positions
          offered,             \* items 1..offered have been offered
          refused,             \* items reported as not inserted
          batch,               \* [item -> [b, s, used, pend]] of the running batched insertion
          rounds,              \* rounds used by the running insertion
          hist                 \* sequence of batches offered (for replay)
vars == <<start, step, tab, offered, refused, batch, rounds, hist>>

Buckets == 0 .. (B - 1)
Steps   == IF B = 1 THEN {1} ELSE {x \in 1 .. (B - 1) : x % 2 = 1}
Full(b) == Len(tab[b]) = K
In(b, i) == \E s \in 1 .. Len(tab[b]) : tab[b][s] = i
SlotOf(b, i) == CHOOSE s \in 1 .. Len(tab[b]) : tab[b][s] = i
Members == UNION {{tab[b][s] : s \in 1 .. Len(tab[b])} : b \in Buckets}

\* The lookup walk of item i: the last bucket probed, the slots probed, whether it was found.
RECURSIVE Walk(_, _, _)
Walk(i, b, used) ==
    LET u == used + K IN
    IF In(b, i) THEN [b |-> b, used |-> u, found |-> TRUE]
    ELSE IF ~Full(b) \/ u >= Limit THEN [b |-> b, used |-> u, found |-> FALSE]
    ELSE Walk(i, (b + step[i]) % B, u)
Find(i) == Walk(i, start[i], 0)

---------------------------------------------------------------------------
Init == /\ start = <<>> /\ step = <<>>
        /\ tab = [b \in Buckets |-> <<>>]
        /\ offered = 0 /\ refused = {} /\ batch = <<>> /\ rounds = 0 /\ hist = <<>>

Idle == batch = <<>>

\* one claim per item: slots of a bucket are numbered from 0; slot K is "none here"
Claim(i) == LET f == Find(i) IN [b |-> f.b, s |-> Len(tab[f.b]), used |-> f.used, pend |-> FALSE]

\* who holds a contested slot: the lowest item (position) of the batch
Loses(cl, i) == \/ cl[i].s >= K
                \/ \E j \in DOMAIN cl : j < i /\ cl[j].b = cl[i].b /\ cl[j].s = cl[i].s
Arbitrate(cl) == [i \in DOMAIN cl |-> [cl[i] EXCEPT !.pend = Loses(cl, i)]]

\* draw the next item of the coming batch: any start bucket and step
Draw(b, d) ==
    /\ Idle /\ Len(start) < N /\ Len(start) - offered < MaxBatch
    /\ start' = Append(start, b) /\ step' = Append(step, d)
    /\ UNCHANGED <<tab, offered, refused, batch, rounds, hist>>

Offer(n) ==
    /\ Idle /\ n > 0
    /\ LET new == (offered + 1) .. (offered + n)
       IN batch' = Arbitrate([i \in new |-> Claim(i)])
    /\ offered' = offered + n
    /\ hist' = Append(hist, n)
    /\ rounds' = 0
    /\ UNCHANGED <<start, step, tab, refused>>

Advance(c, i) ==
    IF c.s < K - 1 THEN [c EXCEPT !.s = @ + 1]
    ELSE IF c.used >= Limit THEN [c EXCEPT !.s = K]          \* beyond the probe limit
    ELSE LET nb == (c.b + step[i]) % B
         IN [c EXCEPT !.b = nb, !.s = Len(tab[nb]), !.used = @ + K]

Pending == {i \in DOMAIN batch : batch[i].pend}
\* the walk of item i is over: nothing left to probe
Exhausted(i) == batch[i].s >= K /\ batch[i].used >= Limit
\* Unbounded rounds (RoundCap = 0), or at most RoundCap of them.  RoundCap = Limit is the
\* original code; TLC shows that it refuses items while buckets are free (see DESIGN.md).
More == (\E i \in Pending : ~Exhausted(i)) /\ (RoundCap > 0 => rounds < RoundCap)

Round ==
    /\ ~Idle /\ More
    /\ batch' = Arbitrate([i \in DOMAIN batch |-> IF batch[i].pend THEN Advance(batch[i], i) ELSE batch[i]])
    /\ rounds' = rounds + 1
    /\ UNCHANGED <<start, step, tab, offered, refused, hist>>

Placed == DOMAIN batch \ Pending
\* the table after writing every placed item at its slot
Written ==
    [b \in Buckets |->
        LET here == {i \in Placed : batch[i].b = b}
        IN tab[b] \o [p \in 1 .. Cardinality(here) |->
                         IF \E i \in here : batch[i].s = Len(tab[b]) + p - 1
                         THEN CHOOSE i \in here : batch[i].s = Len(tab[b]) + p - 1
                         ELSE 0]]                            \* 0: a hole (must not happen)
Commit ==
    /\ ~Idle /\ ~More
    /\ tab' = Written
    /\ refused' = refused \cup Pending
    /\ batch' = <<>>
    /\ UNCHANGED <<start, step, offered, rounds, hist>>
    /\ (EMIT /\ offered = N /\ rounds >= MinRounds =>
          PrintT("TR " \o ToJson([start |-> start, step |-> step, hist |-> hist, refused |-> refused', B |-> B, K |-> K, limit |-> Limit])))

Next == \/ \E b \in Buckets, d \in Steps : Draw(b, d)
        \/ Offer(Len(start) - offered)
        \/ Round
        \/ Commit
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* C03/C05: no hole, no duplicate, every stored item is found at its slot, nothing else is found
NoHole == \A b \in Buckets : \A s \in 1 .. Len(tab[b]) : tab[b][s] # 0
FillOK == \A b \in Buckets : Len(tab[b]) <= K
NoDup  == \A b, c \in Buckets : \A s \in 1 .. Len(tab[b]), t \in 1 .. Len(tab[c]) :
              tab[b][s] = tab[c][t] => b = c /\ s = t
Reachable == Idle => \A i \in 1 .. Len(start) : Find(i).found <=> i \in Members
Accounted == Idle => Members \cup refused = 1 .. offered /\ Members \cap refused = {}
\* C05: with the default limit nothing is refused while room is left
RoomMeansSuccess == (Idle /\ Limit = B * K /\ offered <= B * K) => refused = {}
\* addresses are permanent
Stable == [][\A b \in Buckets : Len(tab[b]) <= Len(tab'[b]) /\ SubSeq(tab'[b], 1, Len(tab[b])) = tab[b]]_tab
\* the insertion always ends
Ends == rounds <= N * (B + B * K)
Inv == Ends /\ NoHole /\ FillOK /\ NoDup /\ Reachable /\ Accounted /\ RoomMeansSuccess

\* refinement: the abstract set with permanent addresses
AbsAddr == [i \in Members |-> LET b == CHOOSE b \in Buckets : In(b, i) IN b * K + SlotOf(b, i) - 1]
HistView == <<start, step, tab, offered, refused, batch, rounds>>
=============================================================================
