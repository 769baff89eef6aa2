------------------------------- MODULE MCShape -------------------------------
(***************************************************************************)
(* Classes x contents x short programs.  `seen` is the derived shape that  *)
(* an implementation may remember with a record: rebuilding makes a new    *)
(* record, which must not take it over (NotStale).                         *)
(* Every state reached is emitted with the steps that lead to it.          *)
(***************************************************************************)
EXTENDS Shape, TLC, Json, FiniteSets
CONSTANTS BatchSet, ShapeSet, MaxSteps, Types
SmallBatches == {<<>>, <<2>>, <<0>>, <<3, 2>>}
SmallShapes == {<<>>, <<1>>, <<2>>, <<2, 2>>, <<2, 1>>, <<3, 2>>}
BigBatches == SmallBatches \cup {<<1>>, <<1, 2>>, <<2, 2, 2>>}
BigShapes == SmallShapes \cup {<<0>>, <<3>>, <<1, 2>>, <<2, 2, 1>>, <<0, 2>>}
VARIABLES kids, seen, prog, start

Lf(i) == [r |-> FALSE, i |-> i, a |-> <<>>, k |-> <<>>]
Rc(i, k) == [r |-> TRUE, i |-> i, a |-> <<>>, k |-> k]
AllTypes == <<
    <<Lf(<<>>)>>,
    <<Lf(<<2>>)>>,
    <<Lf(<<>>), Lf(<<2>>)>>,
    <<Lf(<<1>>), Lf(<<2>>)>>,
    <<Lf(<<2, 1>>), Lf(<<>>)>>,
    <<Rc(<<>>, <<Lf(<<>>)>>)>>,
    <<Rc(<<2>>, <<Lf(<<>>)>>)>>,
    <<Rc(<<2>>, <<Lf(<<1>>)>>), Lf(<<>>)>>,
    <<Lf(<<>>), Rc(<<1>>, <<Lf(<<>>), Lf(<<2>>)>>)>>,
    <<Rc(<<>>, <<Lf(<<2>>), Lf(<<>>)>>), Lf(<<>>)>>,
    <<Rc(<<2>>, <<Lf(<<>>), Lf(<<>>)>>)>>,
    <<Rc(<<>>, <<Rc(<<2>>, <<Lf(<<>>)>>)>>), Lf(<<2>>)>> >>

\* Kids with the j-th leaf (in field order) given another shape.
RECURSIVE NLeaves(_)
NLeaves(ks) == Len(Leaves(ks))
RECURSIVE Put(_, _, _)
Put(ks, j, s) ==
    IF ks = <<>> THEN <<>>
    ELSE LET w == IF ks[1].r THEN NLeaves(ks[1].k) ELSE 1 IN
         IF j > w THEN <<ks[1]>> \o Put(Tail(ks), j - w, s)
         ELSE <<IF ks[1].r THEN [ks[1] EXCEPT !.k = Put(ks[1].k, j, s)] ELSE [ks[1] EXCEPT !.a = s]>> \o Tail(ks)
RECURSIVE PutAll(_, _)
PutAll(ks, ss) == IF ss = <<>> THEN ks ELSE PutAll(Put(ks, Len(ss), ss[Len(ss)]), SubSeq(ss, 1, Len(ss) - 1))

St(op, b, j, s) == [op |-> op, b |-> b, j |-> j, s |-> s]
Init == \E t \in Types : \E b \in BatchSet :
    /\ start = t
    /\ kids = Filled(AllTypes[t], b)
    /\ seen = <<-2>>
    /\ prog = <<St("default", b, 0, <<>>)>>

Room == Len(prog) <= MaxSteps
Look == seen = <<-2>> /\ seen' = BatchOf(kids) /\ prog' = Append(prog, St("look", <<>>, 0, <<>>)) /\ UNCHANGED <<kids, start>>
\* rebuilding with one leaf of another shape
Replace == Room /\ \E j \in 1..NLeaves(kids), s \in ShapeSet :
    /\ s # Leaves(kids)[j]
    /\ kids' = Put(kids, j, s) /\ prog' = Append(prog, St("replace", <<>>, j, s))
    /\ seen' = <<-2>> /\ UNCHANGED start
Ops == {"same", "lead", "stack2", "first", "slice", "flatten", "concat2", "reverse"}
Rebuild == Room /\ \E op \in Ops :
    LET b == BatchOf(kids) c == Rebatch(op, b) IN
    /\ b # UN /\ c # UN
    /\ kids' = Filled(kids, c) /\ prog' = Append(prog, St(op, c, 0, <<>>))
    /\ seen' = <<-2>> /\ UNCHANGED start
Emit == PrintT("TR " \o ToJson([t |-> start, k |-> AllTypes[start], p |-> prog']))
Next == (Look \/ Replace \/ Rebuild) /\ Emit
Spec == Init /\ [][Next]_<<kids, seen, prog, start>>

NotStale == seen = <<-2>> \/ seen = BatchOf(kids)
\* A record filled with batch shape b has batch shape b, whatever its class.
FilledAgrees == \A t \in Types : \A b \in BatchSet : BatchOf(Filled(AllTypes[t], b)) = b
\* A structured record is the filled one.
Canonical == LET b == BatchOf(kids) IN b # UN => kids = Filled(kids, b)
\* Changing the batch shape of one field of several breaks the structure.
OneOff == \A j \in 1..NLeaves(kids) : \A s \in ShapeSet :
    LET old == BatchOf(kids) new == BatchOf(Put(kids, j, s)) IN
    (old # UN /\ NLeaves(kids) > 1 /\ s # Leaves(kids)[j]) => new # old
=============================================================================
