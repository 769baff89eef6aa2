------------------------------ MODULE TraceLib ------------------------------
(***************************************************************************)
(* Common machinery of all trace specifications.                           *)
(*                                                                         *)
(* A trace file is a sequence of JSON events recorded from the real code.  *)
(* Each trace spec is *total*: it walks over every event; at an event that *)
(* the specification does not allow it prints VIOL with the set of clauses *)
(* that fail, and goes on from the state the specification prescribes (or, *)
(* where the specification leaves a choice open, from the observed one).   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* Clause: the name of a clause if it is violated, nothing otherwise.
Cl(ok, name) == IF ok THEN {} ELSE {name}

Report(l, e, fails) ==
    fails # {} =>
        PrintT("VIOL " \o ToJson([at |-> l, id |-> e.id, op |-> e.op, clauses |-> fails]))

Done(l) == PrintT("DONE " \o ToString(l - 1))

Has(e, f) == f \in DOMAIN e

\* Every function over 1..n in JSON becomes a sequence; an empty JSON array is <<>>.
Last(s) == s[Len(s)]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
