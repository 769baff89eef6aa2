-------------------------------- MODULE Shape --------------------------------
(***************************************************************************)
(* Batch shape of a record (C19).                                          *)
(*                                                                         *)
(* A record is a sequence of fields.  A field is a leaf                    *)
(*   [r |-> FALSE, i |-> declared shape, a |-> actual shape, k |-> <<>>]   *)
(* or holds a record itself                                                *)
(*   [r |-> TRUE, i |-> declared shape, a |-> <<>>, k |-> its fields].     *)
(***************************************************************************)
EXTENDS Integers, Sequences
UN == <<-1>>      \* "no batch shape": fields disagree

Strip(s, i) ==
    IF s = UN \/ Len(s) < Len(i) THEN UN
    ELSE IF SubSeq(s, Len(s) - Len(i) + 1, Len(s)) = i THEN SubSeq(s, 1, Len(s) - Len(i))
    ELSE UN

\* The batch shape of one field: what is left of the shape of its content
\* when the declared shape is taken off its end.
RECURSIVE BatchOf(_)
BatchOf(kids) ==
    LET fb == [j \in DOMAIN kids |->
                Strip(IF kids[j].r THEN BatchOf(kids[j].k) ELSE kids[j].a, kids[j].i)]
    IN IF kids = <<>> THEN <<>>
       ELSE IF \A j \in DOMAIN kids : fb[j] = fb[1] THEN fb[1]
       ELSE UN

Kind(b) == IF b = <<>> THEN "SINGLE" ELSE IF b = UN THEN "UNSTRUCTURED" ELSE "BATCHED"
LenOf(b) == IF b = <<>> THEN 1 ELSE IF b = UN THEN -1 ELSE b[1]      \* -1: refused
NdimOf(b) == IF b = UN THEN -1 ELSE Len(b)

\* The record of this class with batch shape s.
RECURSIVE Filled(_, _)
Filled(kids, s) ==
    [j \in DOMAIN kids |->
        IF kids[j].r THEN [kids[j] EXCEPT !.k = Filled(kids[j].k, s \o kids[j].i)]
        ELSE [kids[j] EXCEPT !.a = s \o kids[j].i]]

\* All actual shapes (and dtypes), in field order.
RECURSIVE Leaves(_)
Leaves(kids) ==
    IF kids = <<>> THEN <<>>
    ELSE (IF kids[1].r THEN Leaves(kids[1].k) ELSE <<kids[1].a>>) \o Leaves(Tail(kids))
RECURSIVE Dtypes(_)
Dtypes(kids) ==
    IF kids = <<>> THEN <<>>
    ELSE (IF kids[1].r THEN Dtypes(kids[1].k) ELSE <<kids[1].d>>) \o Dtypes(Tail(kids))

(* ---- what rebuilding operations do to the shapes ---- *)
Size(s) ==
    LET P[j \in 0..Len(s)] == IF j = 0 THEN 1 ELSE s[j] * P[j-1] IN P[Len(s)]
Drop(s) == SubSeq(s, 2, Len(s))
\* batch shape after an operation on a record of batch shape b; UN: not applicable
Rebatch(op, b) ==
    IF op = "same" \/ b = UN THEN b
    ELSE IF op = "lead" THEN <<1>> \o b
    ELSE IF op = "stack2" THEN <<2>> \o b
    ELSE IF b = <<>> THEN UN
    ELSE IF op = "first" THEN (IF b[1] > 0 THEN Drop(b) ELSE UN)
    ELSE IF op = "slice" THEN <<IF b[1] > 1 THEN b[1] - 1 ELSE 0>> \o Drop(b)
    ELSE IF op = "flatten" THEN <<Size(b)>>
    ELSE IF op = "concat2" THEN <<2 * b[1]>> \o Drop(b)
    ELSE IF op = "reverse" THEN [j \in DOMAIN b |-> b[Len(b) + 1 - j]]
    ELSE UN
=============================================================================
