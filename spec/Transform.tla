------------------------------ MODULE Transform ------------------------------
(***************************************************************************)
(* Programs over one container (or record), composed of operations and of  *)
(* program transformations (C09).                                          *)
(*                                                                         *)
(* A program is a tree [t, o, n, c, ks]:                                   *)
(*   "op"    operation number o                                            *)
(*   "seq"   its parts ks one after the other                              *)
(*   "jit"   its part, compiled                                            *)
(*   "scan"  its part n times, folded in a compiled loop; "while": as "scan" *)
(*   "cond"  the first part if c, else the second, chosen inside the code  *)
(*   "trip"  nothing but taking the container apart and building it again  *)
(*   "vmap"  its part, mapped over this container stacked with another one *)
(*                                                                         *)
(* Whatever the composition, it means its operations one after the other.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Node(t, o, n, c, ks) == [t |-> t, o |-> o, n |-> n, c |-> c, ks |-> ks]
Op(o) == Node("op", o, 0, FALSE, <<>>)

RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n = 0 THEN <<>> ELSE s \o Repeat(s, n - 1)

RECURSIVE Ops(_), OpsAll(_)
OpsAll(ks) == IF ks = <<>> THEN <<>> ELSE Ops(ks[1]) \o OpsAll(Tail(ks))
Ops(p) ==
    CASE p.t = "op" -> <<p.o>>
      [] p.t \in {"seq", "jit", "vmap"} -> OpsAll(p.ks)
      [] p.t \in {"scan", "while"} -> Repeat(Ops(p.ks[1]), p.n)
      [] p.t = "cond" -> IF p.c THEN Ops(p.ks[1]) ELSE Ops(p.ks[2])
      [] p.t = "trip" -> <<>>

RECURSIVE Depth(_), DepthAll(_)
DepthAll(ks) == IF ks = <<>> THEN 0 ELSE LET a == Depth(ks[1]) b == DepthAll(Tail(ks)) IN IF a > b THEN a ELSE b
Depth(p) == IF p.ks = <<>> THEN 0 ELSE 1 + DepthAll(p.ks)
=============================================================================
