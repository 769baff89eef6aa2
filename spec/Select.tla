------------------------------- MODULE Select --------------------------------
(***************************************************************************)
(* Strict selection between two records, comparison with a tolerance, and  *)
(* comparison across classes (C21).                                        *)
(*                                                                         *)
(* A record is a sequence of fields [s |-> shape, t |-> element type,      *)
(* d |-> elements in row-major order].  Elements are integers in units the *)
(* operation names; INF, NINF and NAN stand for the special values.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
INF == 100000000
NINF == -100000000
NAN == 99999999
Special(v) == v \in {INF, NINF, NAN}
Abs(v) == IF v < 0 THEN -v ELSE v

\* ---- strict selection: no broadcasting, no casting
StrictOK(c, x, y) ==
    /\ Len(c) = Len(x) /\ Len(y) = Len(x)
    /\ \A f \in DOMAIN x : c[f].s = x[f].s /\ x[f].s = y[f].s /\ x[f].t = y[f].t
Strict(c, x, y) ==
    [f \in DOMAIN x |-> [s |-> x[f].s, t |-> x[f].t, d |-> [i \in DOMAIN x[f].d |-> IF c[f].d[i] THEN x[f].d[i] ELSE y[f].d[i]]]]

\* ---- tolerance: 8 * |a - b| <= A + R * |b|  (A and R in eighths)
Close(a, b, A, R, nan) ==
    IF a = NAN \/ b = NAN THEN nan /\ a = NAN /\ b = NAN
    ELSE IF Special(a) \/ Special(b) THEN a = b
    ELSE 8 * Abs(a - b) <= A + R * Abs(b)
\* the documented default tolerance, for values in units of 2^-20 near one (where the absolute part is negligible)
CloseByDefault(a, b) ==
    IF Special(a) \/ Special(b) THEN a = b /\ a # NAN
    ELSE 100000 * Abs(a - b) <= Abs(b)
\* and for values in units of 2^-27 against zero (where the relative part vanishes): 10^-8 is 1.34 units
CloseToZero(a) == Abs(a) <= 1
IsClose(x, y, cl(_, _)) == [f \in DOMAIN x |-> [s |-> x[f].s, d |-> [i \in DOMAIN x[f].d |-> cl(x[f].d[i], y[f].d[i])]]]
AllClose(x, y, cl(_, _)) == \A f \in DOMAIN x : \A i \in DOMAIN x[f].d : cl(x[f].d[i], y[f].d[i])

\* ---- conversion of every field to one element type that holds its values
Converted(x, to) == [f \in DOMAIN x |-> [s |-> x[f].s, t |-> to,
                                         d |-> [i \in DOMAIN x[f].d |-> IF to = "bool" THEN x[f].d[i] # 0 ELSE x[f].d[i]]]]
=============================================================================
