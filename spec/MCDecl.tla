-------------------------------- MODULE MCDecl --------------------------------
(***************************************************************************)
(* Enumerates declarations, chains of derived declarations, class          *)
(* declarations and constructions; every one is emitted to be tried out.   *)
(***************************************************************************)
EXTENDS Decl, TLC, Json
CONSTANTS What, Steps
VARIABLES x, first, prog

None == [k |-> "none"]
Widths == {NoWidth, [t |-> "int", v |-> 0], [t |-> "int", v |-> 1], [t |-> "int", v |-> 8], [t |-> "int", v |-> 32],
           [t |-> "int", v |-> 33], [t |-> "int", v |-> -1], [t |-> "other", v |-> 3]}
SomeW == {NoWidth, [t |-> "int", v |-> 5], [t |-> "int", v |-> 0]}
Shapes == {<<>>, <<3>>, <<2, 2>>}
Dtypes == {"uint8", "int32", "float32", "bool", "uint32", "Rec"}

Args == {a \in [d : Dtypes, s : Shapes, f : {"", "7"}, g : {"", "F"}, w : Widths, p : Widths, u : {"", "uint16"}, us : {<<-1>>}, v : {"", "V"}] :
            /\ a.p # NoWidth => a.w \in SomeW
            /\ a.u # "" => a.p \in SomeW /\ a.w \in SomeW}
PackArgs == [hs : BOOLEAN, hu : BOOLEAN, s : {<<3>>, <<2, 5>>, <<0>>}, us : {<<3>>, <<>>, <<2, 5>>}, f : {"", "7"}, g : {"", "F"},
             p : (Widths \ {NoWidth}) \cup {[t |-> "int", v |-> b] : b \in {2, 3, 5, 7, 9, 12, 16, 31}}, u : {"", "uint16"}, v : {"", "V"}]
Starts == {a \in Args : DeclOK(a) /\ a.d \in {"uint8", "float32", "Rec"} /\ a.s # <<2, 2>> /\ a.w \in SomeW /\ a.p \in SomeW}
\* sets of overrides
Overs == UNION {[K -> {"int32"}] : K \in {{"d"}}} \cup UNION {[K -> {<<4>>, <<>>}] : K \in {{"s"}}}
         \cup [{"f"} -> {"9"}] \cup [{"g"} -> {"G"}] \cup [{"v"} -> {"", "W"}]
Join(o, q) == [k \in DOMAIN o \cup DOMAIN q |-> IF k \in DOMAIN q THEN q[k] ELSE o[k]]
Overrides == Overs \cup {Join(o, q) : o \in Overs, q \in Overs}

Kinds == {"bits", "plain", "packed", "recbits", "recplain", "arrbits"}
Classes == [mode : {"auto", "aggregate", "field", "off", "all"}, agg : BOOLEAN, extra : {"", "annotated", "unannotated", "reserved"},
            fields : [1..1 -> Kinds] \cup [1..2 -> Kinds] \cup [1..3 -> {"bits", "plain", "recbits", "arrbits"}]]

FieldsGiven == [r : {FALSE}, d : {"uint8", "float32"}, s : {<<>>, <<2>>}, gd : {"uint8", "float32", "int32"},
                gs : {<<>>, <<2>>, <<3>>, <<2, 2>>, <<2, 3>>}, ok : {TRUE}, v : {"none", "passes", "fails"}]
               \cup [r : {TRUE}, d : {""}, s : {<<>>, <<2>>}, gd : {""}, gs : {<<>>}, ok : BOOLEAN, v : {"none", "passes", "fails"}]
Small == {f \in FieldsGiven : f.v # "passes" /\ f.gs # <<2, 3>> /\ f.d # "float32"}
Given == [1..1 -> FieldsGiven] \cup [1..2 -> Small]

Say(r) == PrintT("TR " \o ToJson(r))
Init ==
    /\ prog = <<>>
    /\ CASE What = "decl" -> \E a \in Args : first = a /\ x = (IF DeclOK(a) THEN Declared(a) ELSE a) /\ Say([k |-> "decl", a |-> a])
         [] What = "pack" -> \E a \in PackArgs : first = a /\ x = a /\ Say([k |-> "pack", a |-> a])
         [] What = "derive" -> \E a \in Starts : first = a /\ x = Declared(a)
         [] What = "class" -> \E a \in Classes : first = a /\ x = a /\ Say([k |-> "class", a |-> a])
         [] What = "make" -> \E a \in Given : first = a /\ x = a /\ Say([k |-> "make", a |-> a])
St(op, o, s) == [op |-> op, o |-> o, s |-> s]
Derive ==
    /\ What = "derive" /\ Len(prog) < Steps
    /\ \/ \E o \in Overrides :
            /\ prog' = Append(prog, St("clone", o, <<>>))
            /\ x' = IF CloneOK(o) THEN Clone(x, o) ELSE x
       \/ \E s \in {<<>>, <<5>>} : prog' = Append(prog, St("with", <<>>, s)) /\ x' = Clone(x, [s |-> s])
       \/ \E s \in {<<>>, <<2>>} : prog' = Append(prog, St("prefix", <<>>, s)) /\ x' = Clone(x, [s |-> s \o x.s])
    /\ UNCHANGED first
    /\ Say([k |-> "derive", a |-> first, p |-> prog'])
Spec == Init /\ [][Derive]_<<x, first, prog>>

\* Nothing but the attributes named by some override ever differs from the start.
Touched == UNION {IF prog[i].op = "clone" THEN (IF CloneOK(prog[i].o) THEN DOMAIN prog[i].o ELSE {}) ELSE {"s"} : i \in DOMAIN prog}
KeepsRest == What = "derive" =>
    LET y == Declared(first) IN
    /\ x.w = y.w /\ x.p = y.p /\ x.u = y.u /\ x.us = y.us
    /\ "d" \in Touched \/ x.d = y.d
    /\ "s" \in Touched \/ x.s = y.s
    /\ "v" \in Touched \/ x.v = y.v
    /\ (Touched \cap {"f", "g"}) # {} \/ y.d = "Rec" \/ (x.f = y.f /\ x.g = y.g)
\* A declaration never carries both kinds of fill.
OneFill == What \in {"decl", "derive"} /\ (What = "decl" => DeclOK(first)) => ~(x.g # "" /\ x.f # "None")
\* A stored stream is long enough for its values and wastes less than a block.
Lengths == What = "pack" /\ PackOK(first) =>
    LET n == Size(PackShape(first)) b == first.p.v m == NumBytes(n, b) IN 8 * m >= n * b /\ 8 * m < n * b + 8 * b
=============================================================================
