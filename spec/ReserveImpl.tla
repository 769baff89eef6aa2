----------------------------- MODULE ReserveImpl -----------------------------
(***************************************************************************)
(* The protocol of the GPU kernel: every program looks at the occupancy of *)
(* its bucket once, then tries to set the lowest bit it believes to be     *)
(* free by an atomic or, whose answer tells it what the bucket held; other *)
(* programs act in between.  Refines Reserve.  Complete behaviours are     *)
(* emitted: the start, and who acted at every access.                      *)
(***************************************************************************)
EXTENDS Reserve, Integers, Sequences, TLC, Json
CONSTANTS Steps, Share, Pick
VARIABLES at, known, trying, sched, first
vars == <<occ, res, start, step, active, at, known, trying, sched, first>>
Prefix(n) == {s \in Slots : s < n}
Weight(fill, st, sp, ac) ==                    \* to take a share of the starts
    LET f[i \in 0 .. Cap] == IF i = 0 THEN 0 ELSE fill[i - 1] * (2 * i + 1) + f[i - 1]
        g[p \in 0 .. P] == IF p = 0 THEN 0 ELSE st[p] * (3 * p + 2) + sp[p] * (5 * p) + (IF ac[p] THEN p ELSE 0) + g[p - 1]
    IN f[Cap] + g[P]
Init ==
    /\ \E fill \in [Buckets -> 0 .. B], st \in [Progs -> Buckets], sp \in [Progs -> Steps], ac \in [Progs -> BOOLEAN] :
         /\ Cardinality({p \in Progs : ac[p]}) >= P - 1
         /\ Weight(fill, st, sp, ac) % Share = Pick
         /\ occ = [b \in Buckets |-> Prefix(fill[b])] /\ start = st /\ step = sp /\ active = ac
    /\ res = [p \in Progs |-> None]
    /\ at = [p \in Progs |-> 1] /\ known = [p \in Progs |-> {}] /\ trying = [p \in Progs |-> FALSE]
    /\ sched = <<>> /\ first = occ
Live(p) == active[p] /\ res[p] = None
\* What a program does when it knows its bucket to hold `set`.
Decide(p, set) ==
    IF set # Slots THEN /\ trying' = [trying EXCEPT ![p] = TRUE] /\ known' = [known EXCEPT ![p] = set] /\ UNCHANGED <<at, res>>
    ELSE /\ trying' = [trying EXCEPT ![p] = FALSE] /\ known' = [known EXCEPT ![p] = {}]
         /\ at' = [at EXCEPT ![p] = @ + 1]
         /\ res' = IF at[p] = Probe THEN [res EXCEPT ![p] = Failed] ELSE res
Look(p) ==
    /\ Live(p) /\ ~trying[p]
    /\ Decide(p, occ[Path(p, at[p])]) /\ UNCHANGED occ
Try(p) ==
    /\ Live(p) /\ trying[p]
    /\ LET b == Path(p, at[p]) s == Free(known[p]) IN
         IF s \in occ[b] THEN Decide(p, known[p] \cup occ[b]) /\ UNCHANGED occ
         ELSE /\ occ' = [occ EXCEPT ![b] = @ \cup {s}]
              /\ res' = [res EXCEPT ![p] = <<b, s>>]
              /\ UNCHANGED <<at, known, trying>>
Over == \A p \in Progs : ~Live(p)
Bits(set) == [i \in 1 .. B |-> IF (i - 1) \in set THEN 1 ELSE 0]
Next == \E p \in Progs :
    /\ Look(p) \/ Try(p)
    /\ sched' = Append(sched, p - 1)
    /\ UNCHANGED <<start, step, active, first>>
    /\ Over' => PrintT("TR " \o ToJson([cap |-> Cap, b |-> B, probe |-> Probe, occ |-> [i \in 1 .. Cap |-> Bits(first[i - 1])],
                       start |-> start, step |-> step, active |-> active, sched |-> sched']))
Spec == Init /\ [][Next]_vars
\* laws of the protocol
Exclusive == \A p, q \in Progs : (p # q /\ res[p] \notin {None, Failed}) => res[p] # res[q]
Lowest == \A b \in Buckets : \E n \in 0 .. B : occ[b] = Prefix(n)
Informed == \A p \in Progs : (Live(p) /\ trying[p]) => known[p] \subseteq occ[Path(p, at[p])]
Bounded == Len(sched) <= P * Probe * (B + 1)
=============================================================================
