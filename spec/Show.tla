-------------------------------- MODULE Show --------------------------------
(***************************************************************************)
(* What printing a batch of records shows.  A batch is laid out as rows of *)
(* cells: a batch of rank two as a grid, any other as one row in order.    *)
(* A cell shows one record, named by its position in the batch, or is a    *)
(* gap (-1) which stands for records left out.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
GAP == -1
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

(* Along one axis of n entries: all of them if n is at most `all`,         *)
(* otherwise some from the front, a gap, and some from the end, at least   *)
(* `half` on each side.                                                    *)
Complete(p, n) == p = [i \in 1..n |-> i - 1]
Gaps(p) == {i \in DOMAIN p : p[i] = GAP}
Shortened(p, n, half) ==
    /\ Cardinality(Gaps(p)) = 1
    /\ LET g == CHOOSE i \in Gaps(p) : TRUE
           tail == Len(p) - g
       IN /\ g - 1 >= half /\ tail >= half
          /\ \A i \in 1..g - 1 : p[i] = i - 1                           \* from the front, none skipped
          /\ \A i \in g + 1..Len(p) : p[i] = n - (Len(p) - i) - 1       \* to the end, none skipped
          /\ (g - 1) + tail < n                                        \* a gap stands for something
AxisOK(p, n, all, half) == IF n <= all THEN Complete(p, n) ELSE Complete(p, n) \/ Shortened(p, n, half)

(* `rows` are the observed cells. `max` and `half` are the documented limits. *)
GridAxis(cells) == [i \in DOMAIN cells |-> cells[i]]
RowOf(row, cols) == LET real == {c \in Range(row) : c # GAP} IN IF real = {} THEN GAP ELSE (CHOOSE c \in real : TRUE) \div cols
GridOK(rows, s, half) ==
    IF s[1] = 0 \/ s[2] = 0 THEN \A r \in DOMAIN rows : \A i \in DOMAIN rows[r] : rows[r][i] = GAP
    ELSE /\ AxisOK([r \in DOMAIN rows |-> RowOf(rows[r], s[2])], s[1], 2 * half, half)
         /\ \A r \in DOMAIN rows :
              LET at == RowOf(rows[r], s[2])
              IN IF at = GAP THEN TRUE
                 ELSE AxisOK([i \in DOMAIN rows[r] |-> IF rows[r][i] = GAP THEN GAP ELSE rows[r][i] - at * s[2]], s[2], 2 * half, half)
LineOK(rows, s, max, half) ==
    LET n == Prod(s)
        row == IF rows = <<>> THEN <<>> ELSE rows[1]
    IN Len(rows) <= 1 /\ AxisOK(row, n, max, half)
Shows(rows, s, max, half) == IF Len(s) = 2 THEN GridOK(rows, s, half) ELSE LineOK(rows, s, max, half)

(* One layout which shows what it must: as documented. *)
Pick(n, all, half) == IF n <= all THEN [i \in 1..n |-> i - 1]
                      ELSE [i \in 1..half |-> i - 1] \o <<GAP>> \o [i \in 1..half |-> n - half + i - 1]
Layout(s, max, half) ==
    IF Len(s) = 2
    THEN LET R == Pick(s[1], 2 * half, half)
             C == Pick(s[2], 2 * half, half)
         IN IF C = <<>> THEN <<>> ELSE [r \in DOMAIN R |-> [k \in DOMAIN C |-> IF R[r] = GAP \/ C[k] = GAP THEN GAP ELSE R[r] * s[2] + C[k]]]
    ELSE IF Prod(s) = 0 THEN <<>> ELSE << Pick(Prod(s), max, half) >>
=============================================================================
