----------------------------- MODULE MCTransform -----------------------------
(***************************************************************************)
(* Grows programs by composition and runs them, by structure, on an        *)
(* abstract container: a register of the operations it has undergone whose *)
(* answers depend on everything before (so any lost, repeated, reordered   *)
(* or foreign operation shows).  Two containers exist; mapping runs a      *)
(* program on both, and neither may see anything of the other.             *)
(***************************************************************************)
EXTENDS Transform, TLC, Json, FiniteSets
CONSTANTS NOps, MaxOps, MaxDepth
VARIABLES prog

\* One operation on a container: [past, outs].
Do(s, o) == [past |-> Append(s.past, o), outs |-> Append(s.outs, <<o, s.past>>)]

RECURSIVE Run(_, _), RunAll(_, _), Times(_, _, _)
RunAll(s, ks) == IF ks = <<>> THEN s ELSE RunAll(Run(s, ks[1]), Tail(ks))
Times(s, p, n) == IF n = 0 THEN s ELSE Times(Run(s, p), p, n - 1)
Run(s, p) ==
    CASE p.t = "op" -> Do(s, p.o)
      [] p.t = "seq" -> RunAll(s, p.ks)
      [] p.t = "jit" -> Run(s, p.ks[1])
      [] p.t \in {"scan", "while"} -> Times(s, p.ks[1], p.n)
      [] p.t = "cond" -> IF p.c THEN Run(s, p.ks[1]) ELSE Run(s, p.ks[2])
      [] p.t = "trip" -> s
      [] p.t = "vmap" -> \* stacked with a container of another past, mapped, unstacked
            LET pair == <<s, [past |-> <<0>>, outs |-> <<>>]>>
                done == [i \in 1..2 |-> Run(pair[i], p.ks[1])]
            IN done[1]
RECURSIVE Flat(_, _)
Flat(s, os) == IF os = <<>> THEN s ELSE Flat(Do(s, os[1]), Tail(os))
Start == [past |-> <<>>, outs |-> <<>>]

Init == prog \in {Op(o) : o \in 1..NOps}
Wrap(p) ==
    {Node("jit", 0, 0, FALSE, <<p>>), Node("vmap", 0, 0, FALSE, <<p>>)} \cup
    {Node(t, 0, n, FALSE, <<p>>) : t \in {"scan", "while"}, n \in {2, 3}} \cup
    {Node("cond", 0, 0, c, IF c THEN <<p, Op(o)>> ELSE <<Op(o), p>>) : c \in BOOLEAN, o \in {q \in 1..NOps : Len(Ops(p)) = 1}} \cup
    {Node("seq", 0, 0, FALSE, <<p, Op(o)>>) : o \in 1..NOps} \cup
    {Node("seq", 0, 0, FALSE, <<Op(o), p>>) : o \in 1..NOps} \cup
    {Node("seq", 0, 0, FALSE, <<p, Node("trip", 0, 0, FALSE, <<>>), Op(o)>>) : o \in 1..NOps}
Trim(p) == p.t # "jit" \/ p.ks[1].t # "jit"
Next == \E q \in Wrap(prog) :
    /\ Len(Ops(q)) <= MaxOps /\ Depth(q) <= MaxDepth /\ Trim(q)
    /\ prog' = q
    /\ PrintT("TR " \o ToJson(q))
Spec == Init /\ [][Next]_prog

SameMeaning == Run(Start, prog) = Flat(Start, Ops(prog))
\* The other container of a mapping undergoes the same operations and ends with its own past.
NoLeak == LET a == Run(Start, prog) b == Run([past |-> <<0>>, outs |-> <<>>], prog) IN
    /\ b.past = <<0>> \o a.past
    /\ Len(a.outs) = Len(b.outs)
=============================================================================
