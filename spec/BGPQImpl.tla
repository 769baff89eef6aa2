------------------------------ MODULE BGPQImpl ------------------------------
(***************************************************************************)
(* Node-level model of the batched priority queue (C06-C08).               *)
(*                                                                         *)
(* A binary heap of Branch nodes, each a sorted block of Batch keys, and a *)
(* sorted buffer of at most Batch-1 keys.  INF marks an unused place.      *)
(* Keys only: records are permuted with their keys.                        *)
(* insert: merge with the root (root keeps the smallest), the rest goes to *)
(* the buffer; when the buffer holds a whole block, the smallest block of  *)
(* it is sunk along the path to the next free node, or, when the heap is   *)
(* full, along the path to the node with the largest last key; what falls  *)
(* out at the end is dropped.                                              *)
(* delete: the root is returned; the last node and the buffer are merged   *)
(* into the root, which is then sifted down.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANTS Batch, Branch, Keys,
          MaxHeld,   \* an insertion may bring the queue (were nothing discarded) to this many keys
          EMIT

INF == 999
VARIABLES node,     \* [0..Branch-1 -> sequence of Batch keys]
          last,     \* heap_size: index of the last node in use (0 also when only the root is)
          buf       \* sequence of Batch-1 keys
vars == <<node, last, buf>>

Sorted(s) == SortSeq(s, LAMBDA a, b : a < b)
InfSeq(k) == [i \in 1 .. k |-> INF]
Low(s, k)  == SubSeq(s, 1, k)
High(s, k) == SubSeq(s, k + 1, Len(s))
Split(a, b) == LET m == Sorted(a \o b) IN <<Low(m, Len(a)), High(m, Len(a))>>
Finite(s) == SelectSeq(s, LAMBDA x : x # INF)
NFinite(s) == Len(Finite(s))

Contents(nd, b) == Finite(FlattenSeq([i \in 1 .. Branch |-> nd[i - 1]]) \o b)
Held == Contents(node, buf)
Bag(s) == [k \in Keys |-> Cardinality({i \in DOMAIN s : s[i] = k})]
SizeReported == IF last = 0 THEN NFinite(node[0]) + NFinite(buf) ELSE (last + 1) * Batch + NFinite(buf)

Init == /\ node = [i \in 0 .. (Branch - 1) |-> InfSeq(Batch)]
        /\ last = 0
        /\ buf = InfSeq(Batch - 1)

---------------------------------------------------------------------------
\* indices of the path root -> target (0-based), root excluded
RECURSIVE PathTo(_)
PathTo(t) == IF t = 0 THEN <<>> ELSE Append(PathTo((t - 1) \div 2), t)

RECURSIVE SinkPath(_, _, _)
SinkPath(nd, path, carry) ==
    IF path = <<>> THEN [nd |-> nd, out |-> carry]
    ELSE LET r == Split(nd[Head(path)], carry)
         IN SinkPath([nd EXCEPT ![Head(path)] = r[1]], Tail(path), r[2])

IsFull == last >= Branch - 1
\* the first node with the largest last key
Worst(nd) == CHOOSE i \in 0 .. (Branch - 1) :
                /\ \A j \in 0 .. (Branch - 1) : nd[j][Batch] <= nd[i][Batch]
                /\ \A j \in 0 .. (i - 1) : nd[j][Batch] < nd[i][Batch]

\* the effect of inserting a block (any keys, INF padded to Batch)
InsertResult(block) ==
    LET r  == Split(node[0], Sorted(block))
        nd == [node EXCEPT ![0] = r[1]]
        m  == Sorted(r[2] \o buf)
    IN IF NFinite(m) < Batch
       THEN [nd |-> nd, last |-> last, buf |-> Low(m, Batch - 1), out |-> <<>>]
       ELSE LET carry == Low(m, Batch)
                rest  == High(m, Batch)
                target == IF IsFull THEN Worst(nd) ELSE last + 1
                s == IF target = 0 THEN LET q == Split(nd[0], carry) IN [nd |-> [nd EXCEPT ![0] = q[1]], out |-> q[2]]
                     ELSE SinkPath(nd, PathTo(target), carry)
            IN [nd |-> s.nd, last |-> IF IsFull THEN last ELSE last + 1, buf |-> rest, out |-> Finite(s.out)]

Child(nd, i) == IF i < Branch THEN nd[i] ELSE InfSeq(Batch)
RECURSIVE Sift(_, _)
Sift(nd, i) ==
    LET l == 2 * i + 1
        r == 2 * i + 2
        cl == Child(nd, l)
        cr == Child(nd, r)
    IN IF nd[i][Batch] <= Min({cl[1], cr[1]}) THEN nd
       ELSE LET x  == IF cl[Batch] > cr[Batch] THEN l ELSE r     \* gets the larger half
                y  == IF x = l THEN r ELSE l
                s  == Split(cl, cr)
                t  == Split(nd[i], s[1])
                nd2 == [j \in 0 .. (Branch - 1) |->
                          IF j = i THEN t[1] ELSE IF j = x THEN s[2] ELSE IF j = y THEN t[2] ELSE nd[j]]
            IN Sift(nd2, y)

DeleteResult ==
    IF last = 0
    THEN LET r == Split(InfSeq(Batch), buf)
         IN [nd |-> [node EXCEPT ![0] = r[1]], last |-> 0, buf |-> r[2]]
    ELSE LET r == Split(node[last], buf)
             nd == [[node EXCEPT ![last] = InfSeq(Batch)] EXCEPT ![0] = r[1]]
         IN [nd |-> Sift(nd, 0), last |-> last - 1, buf |-> r[2]]

---------------------------------------------------------------------------
Ordered(s) == \A i \in 1 .. (Len(s) - 1) : s[i] <= s[i + 1]
Blocks == {s \in UNION {[1 .. k -> Keys] : k \in 0 .. Batch} : Ordered(s)}
Pad(s) == s \o InfSeq(Batch - Len(s))

Emit(op, b, st) == EMIT => PrintT("TR " \o ToJson([src |-> <<node, last, buf>>, op |-> op, block |-> b, dst |-> st]))

Insert(b) ==
    /\ Len(Held) + Len(b) <= MaxHeld
    /\ LET r == InsertResult(Pad(b))
       IN /\ node' = r.nd /\ last' = r.last /\ buf' = r.buf
    /\ Emit("insert", b, <<node', last', buf'>>)
DoDelete ==
    /\ Held # <<>>
    /\ LET r == DeleteResult
       IN /\ node' = r.nd /\ last' = r.last /\ buf' = r.buf
Delete ==
    /\ DoDelete
    /\ Emit("delete", <<>>, <<node', last', buf'>>)

Next == (\E b \in Blocks : Insert(b)) \/ Delete
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* the heap invariant
HeapOrder == \A i \in 1 .. (Branch - 1) : i <= last => node[(i - 1) \div 2][Batch] <= node[i][1]
NodesSorted == (\A i \in 0 .. (Branch - 1) : Ordered(node[i])) /\ Ordered(buf)
NodesFull == /\ \A i \in 1 .. (Branch - 1) : IF i <= last THEN NFinite(node[i]) = Batch ELSE NFinite(node[i]) = 0
             /\ last > 0 => NFinite(node[0]) = Batch
BufferAboveRoot == \A i \in DOMAIN buf : buf[i] >= node[0][Batch]
\* C06: the root is exactly the smallest keys held
RootIsMin == LET s == Sorted(Held) IN Finite(node[0]) = Low(s, IF Len(s) < Batch THEN Len(s) ELSE Batch)
SizeExact == SizeReported = Len(Held)
Inv == HeapOrder /\ NodesSorted /\ NodesFull /\ BufferAboveRoot /\ RootIsMin /\ SizeExact

\* C06/C07: a deletion removes exactly the root; C07/C08: insertions conserve, or discard only when full
Cap == Branch * Batch
DeleteExact == [][DoDelete => Bag(Held') = Bag(Contents([node EXCEPT ![0] = InfSeq(Batch)], buf))]_vars
InsertConserves == \A b \in Blocks : LET r == InsertResult(Pad(b)) IN
    /\ (Len(Held) + Len(b) <= Cap) => Bag(Contents(r.nd, r.buf)) = Bag(Held \o b)
    /\ \A k \in Keys : Bag(Contents(r.nd, r.buf))[k] + Bag(r.out)[k] = Bag(Held \o b)[k]
    /\ Len(Contents(r.nd, r.buf)) >= Min({Cap, Len(Held) + Len(b)})
    /\ Finite(r.nd[0]) = LET s == Sorted(Held \o b) IN Low(s, IF Len(s) < Batch THEN Len(s) ELSE Batch)
=============================================================================
