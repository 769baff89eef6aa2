------------------------------ MODULE MCSelect ------------------------------
(***************************************************************************)
(* Laws of strict selection and tolerant comparison over small values; the *)
(* cases are emitted to be run on real records.                            *)
(***************************************************************************)
EXTENDS Select, TLC, Json
CONSTANTS Values, Tols, Bits
Few == {-3, 0, 1, 2, 8, INF, NINF, NAN}
Many == {-8, -3, -1, 0, 1, 2, 5, 8, INF, NINF, NAN}
VARIABLES k
vars == <<k>>
Pairs == [op : {"close"}, a : Values, b : Values, A : Tols, R : Tols, nan : BOOLEAN]
\* one field is made not to fit in one way (or none is)
Fits == [op : {"strict"}, form : {"array", "record"},
         defect : {"none", "cond_shape", "cond_rank", "y_shape", "y_rank", "y_type", "y_class", "cond_class"}, field : 0..3, flat : BOOLEAN]
Sel == [op : {"bits"}, c : [1..Bits -> BOOLEAN], same : BOOLEAN]
Init == k \in Pairs \cup Fits \cup Sel /\ PrintT("TR " \o ToJson(k))
Next == UNCHANGED k
Spec == Init /\ [][Next]_vars

Fld(d) == [s |-> <<Len(d)>>, t |-> "t", d |-> d]
Laws ==
    /\ k.op = "close" =>
        /\ Special(k.a) \/ Close(k.a, k.a, k.A, k.R, k.nan)
        /\ (k.R = 0 => (Close(k.a, k.b, k.A, 0, k.nan) <=> Close(k.b, k.a, k.A, 0, k.nan)))
        /\ (k.A = 0 /\ k.R = 0 /\ ~k.nan => (Close(k.a, k.b, 0, 0, FALSE) <=> (k.a = k.b /\ k.a # NAN)))
        /\ \A A2 \in Tols, R2 \in Tols : (A2 >= k.A /\ R2 >= k.R /\ Close(k.a, k.b, k.A, k.R, k.nan)) => Close(k.a, k.b, A2, R2, k.nan)
    /\ k.op = "bits" =>
        LET x == << Fld([i \in 1..Bits |-> i]) >>
            y == << Fld([i \in 1..Bits |-> -i]) >>
            c == << [s |-> <<Bits>>, d |-> k.c] >>
            n == << [s |-> <<Bits>>, d |-> [i \in 1..Bits |-> ~k.c[i]]] >>
        IN /\ StrictOK(c, x, y)
           /\ Strict(c, x, y) = Strict(n, y, x)
           /\ Strict(c, x, x) = x
           /\ (Strict(c, x, y) = x <=> \A i \in 1..Bits : k.c[i])
=============================================================================
