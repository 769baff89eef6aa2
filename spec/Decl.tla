--------------------------------- MODULE Decl ---------------------------------
(***************************************************************************)
(* Field declarations, class declarations and construction checks (C20).   *)
(*                                                                         *)
(* Widths are [t |-> "none"|"int"|"other", v |-> Int]; a fill is the text  *)
(* of the value, "" where none is given.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoWidth == [t |-> "none", v |-> 0]
WidthOK(w) == w.t = "none" \/ (w.t = "int" /\ w.v \in 1..32)

\* The fill value of a field that declares none.
DefFill(d) ==
    CASE d = "bool" -> "False"
      [] d = "uint8" -> "255" [] d = "uint16" -> "65535" [] d = "uint32" -> "4294967295"
      [] d \in {"int8", "int16", "int32"} -> "0"
      [] d \in {"float16", "bfloat16", "float32"} -> "inf"
      [] OTHER -> "None"

(* A declaration: d dtype, s shape, f fill given, g factory, w bits, p packed, *)
(* u unpacked dtype, us unpacked shape (as text), v validator.                 *)
DeclOK(a) == ~(a.f # "" /\ a.g # "") /\ WidthOK(a.w) /\ WidthOK(a.p)
Declared(a) ==
    [a EXCEPT !.f = IF a.f # "" THEN a.f ELSE IF a.g # "" THEN "None" ELSE DefFill(a.d)]

(* Bytes of a packed stream of n values of b bits, in whole blocks. *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
NumBytes(n, b) ==
    LET blk == 8 \div Gcd(8, b)            \* values per block
        bb == (blk * b) \div 8             \* bytes per block
    IN ((n + blk - 1) \div blk) * bb
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 1 ELSE s[1] * Size(Tail(s))

(* packed_tensor(shape, unpacked_shape, bits, unpacked dtype, fill, factory):  *)
(* hs, hu: whether shape and unpacked_shape are given.                         *)
PackOK(a) == (a.hs \/ a.hu) /\ (a.hs /\ a.hu => a.s = a.us)
             /\ a.p.t = "int" /\ WidthOK(a.p) /\ ~(a.f # "" /\ a.g # "")
PackShape(a) == IF a.hs THEN a.s ELSE a.us
PackDtype(a) == IF a.u # "" THEN a.u ELSE IF a.p.v = 1 THEN "bool" ELSE IF a.p.v <= 8 THEN "uint8" ELSE "uint32"
PackFill(a) == IF a.f # "" THEN a.f ELSE IF a.g # "" THEN "None" ELSE "0"

(* Derived declarations.  o: the overrides; absent attributes are kept. *)
CloneOK(o) == ~("f" \in DOMAIN o /\ "g" \in DOMAIN o)
\* Without any fill the default for the dtype applies.
Refill(x) == IF x.f = "None" /\ x.g = "" THEN [x EXCEPT !.f = DefFill(x.d)] ELSE x
Clone(x, o) == Refill(
    [x EXCEPT !.d = IF "d" \in DOMAIN o THEN o.d ELSE @,
              !.s = IF "s" \in DOMAIN o THEN o.s ELSE @,
              !.f = IF "f" \in DOMAIN o THEN o.f ELSE IF "g" \in DOMAIN o THEN "None" ELSE @,
              !.g = IF "g" \in DOMAIN o THEN o.g ELSE IF "f" \in DOMAIN o THEN "" ELSE @,
              !.v = IF "v" \in DOMAIN o THEN o.v ELSE @])

(* Classes.  A field kind: "bits" (width declared), "plain", "packed" (packed  *)
(* tensor), "recbits"/"recplain" (record field), "arrbits" (tensor of records).*)
Effective(c) == IF c.agg /\ c.mode = "auto" THEN "aggregate" ELSE c.mode
AllBits(c) == \A i \in DOMAIN c.fields : c.fields[i] \in {"bits", "recbits"}
ClassOK(c) ==
    /\ c.mode \in {"auto", "aggregate", "field", "off"}
    /\ ~(c.agg /\ c.mode \in {"field", "off"})
    /\ c.extra \in {"", "annotated"}
    /\ Effective(c) = "aggregate" => AllBits(c)
HasPacked(c) == Effective(c) = "aggregate" \/ (Effective(c) = "auto" /\ AllBits(c))
HasAccessors(c) == Effective(c) # "off"

(* Construction.  A field as declared and as given:                            *)
(* r record?, d/s declared dtype and shape, gd/gs given, ok: class right,      *)
(* v: validator "none", "passes", "fails".                                     *)
EndsWith(s, i) == Len(s) >= Len(i) /\ SubSeq(s, Len(s) - Len(i) + 1, Len(s)) = i
FieldOK(f) ==
    /\ f.v # "fails"
    /\ IF f.r THEN f.ok ELSE f.gd = f.d /\ EndsWith(f.gs, f.s)
RecordOK(fs) == \A i \in DOMAIN fs : FieldOK(fs[i])
=============================================================================
