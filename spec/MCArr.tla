-------------------------------- MODULE MCArr --------------------------------
(***************************************************************************)
(* Every operation of Arr on every small batch shape with every small      *)
(* argument: laws that tie the operations to each other are checked, and   *)
(* every case is emitted for execution on the real code.                   *)
(***************************************************************************)
EXTENDS Arr, TLC, Json
CONSTANTS Big,      \* also the larger shapes
          Families  \* which families of operations
Shapes == {<<>>, <<1>>, <<3>>, <<2, 3>>, <<2, 1, 3>>, <<2, 2>>, <<0>>}
          \cup (IF Big THEN {<<2>>, <<4>>, <<1, 3>>, <<3, 2>>, <<2, 0>>, <<1, 1>>, <<2, 2, 2>>} ELSE {})

VARIABLES c
vars == <<c>>
Init == c = [e |-> [op |-> "none"], regs |-> <<>>]

\* arrays whose records are all different: base + position
Fresh(s, base) == [s |-> s, d |-> [n \in 1..Prod(s) |-> base + n]]
A(s) == Fresh(s, 0)
Case(regs, e) ==
    LET c2 == [e |-> e, regs |-> regs]
    IN c' = c2 /\ PrintT("TR " \o ToJson(c2))
One(s, e) == Case(<<A(s)>>, e)
Ax(s) == 0..Len(s) - 1
Perms(n) == {p \in [1..n -> 0..n - 1] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Injections(k, n) == {p \in [1..k -> 0..n - 1] : \A i, j \in 1..k : i # j => p[i] # p[j]}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}

\* ---------------------------------------------------------------- families
AxisMoves(s) ==
    LET r == Len(s) IN
    \/ \E p \in Perms(r) \cup {<<>>} : One(s, [op |-> "transpose", in |-> <<1>>, axes |-> p])
    \/ \E x, y \in -r..r - 1 : One(s, [op |-> "swapaxes", in |-> <<1>>, axes |-> <<x, y>>])
    \/ \E k \in 1..r : \E x, y \in Injections(k, r) : One(s, [op |-> "moveaxis", in |-> <<1>>, axes |-> x, dst |-> y])
    \/ \E x \in 0..r : One(s, [op |-> "expand_dims", in |-> <<1>>, ax |-> x])
    \/ \E n \in 1..3 : One(s, [op |-> "atleast", in |-> <<1>>, n |-> n])
    \/ \E xs \in UNION {Injections(k, r) : k \in 1..r} : (\A k \in DOMAIN xs : s[xs[k] + 1] = 1)
          /\ One(s, [op |-> "squeeze", in |-> <<1>>, axes |-> xs])

Factor(n) == {t \in Seqs(1..n, 3) : Prod(t) = n /\ t # <<>>}
Infers(t) == {t} \cup {[t EXCEPT ![k] = -1] : k \in DOMAIN t}
Reshapes(s) ==
    \/ s # <<>> /\ Prod(s) > 0 /\ \E t \in Factor(Prod(s)) : \E u \in Infers(t) : One(s, [op |-> "reshape", in |-> <<1>>, ns |-> u])
    \/ s # <<>> /\ Prod(s) = 0 /\ \E u \in {<<0>>, <<0, 3>>, <<2, 0>>} : One(s, [op |-> "reshape", in |-> <<1>>, ns |-> u])
    \/ s # <<>> /\ One(s, [op |-> "flatten", in |-> <<1>>])
    \/ \E t \in {x \o s : x \in {<<>>, <<2>>, <<2, 3>>}} : One(s, [op |-> "broadcast_to", in |-> <<1>>, ns |-> t])
    \/ \E k \in DOMAIN s : s[k] = 1 /\ One(s, [op |-> "broadcast_to", in |-> <<1>>, ns |-> [s EXCEPT ![k] = 3]])
    \/ \E k \in DOMAIN s : Case(<<A(s), Fresh([s EXCEPT ![k] = 1], 30)>>, [op |-> "broadcast_arrays", in |-> <<1, 2>>])
    \/ Case(<<A(s), Fresh(<<>>, 30)>>, [op |-> "broadcast_arrays", in |-> <<2, 1>>])

Gathers(s) == \E x \in Ax(s) : LET n == s[x + 1] IN
    \/ n > 0 /\ \E ind \in {[s |-> <<>>, d |-> <<k>>] : k \in -n..n - 1} \cup {[s |-> <<2>>, d |-> p] : p \in [1..2 -> -n..n - 1]}
                       \cup {[s |-> <<2, 2>>, d |-> <<0, n - 1, -1, 0>>], [s |-> <<0>>, d |-> <<>>], [s |-> <<3>>, d |-> <<n - 1, 0, n - 1>>]} :
            One(s, [op |-> "take", in |-> <<1>>, ax |-> x, v |-> <<ind>>])
    \/ n > 0 /\ \E m \in 1..2 : \E f \in 0..2 :
            LET t == SetAt(s, x, m) IN
            One(s, [op |-> "take_along_axis", in |-> <<1>>, ax |-> x,
                    v |-> <<[s |-> t, d |-> [i \in 1..Prod(t) |-> ((i * (f + 1) + f) % (2 * n)) - n]]>>])
    \/ \E k \in 0..2 : One(s, [op |-> "repeat", in |-> <<1>>, ax |-> x, form |-> "int", reps |-> <<k>>])
    \/ n > 0 /\ \E q \in [1..n -> 0..2] : One(s, [op |-> "repeat", in |-> <<1>>, ax |-> x, form |-> "seq", reps |-> q])
    \/ n > 0 /\ \E k \in -(n + 1)..n + 1 : One(s, [op |-> "roll", in |-> <<1>>, axes |-> <<x>>, sh |-> <<k>>])
    \/ One(s, [op |-> "flip", in |-> <<1>>, axes |-> <<x>>])
    \/ \E y \in Ax(s) \ {x} : \/ One(s, [op |-> "flip", in |-> <<1>>, axes |-> <<x, y>>])
                              \/ Prod(s) > 0 /\ \E k \in {1, -2} : One(s, [op |-> "roll", in |-> <<1>>, axes |-> <<x, y>>, sh |-> <<k, 2>>])
                              \/ \E k \in -1..4 : One(s, [op |-> "rot90", in |-> <<1>>, n |-> k, axes |-> <<x, y>>])
    \/ \E k \in 1..(n + 1) : n % k = 0 /\ One(s, [op |-> "split", in |-> <<1>>, ax |-> x, form |-> "sections", at |-> <<k>>])
    \/ \E p, q \in 0..n : p <= q /\ (\/ One(s, [op |-> "split", in |-> <<1>>, ax |-> x, form |-> "at", at |-> <<p, q>>])
                                     \/ p = q /\ One(s, [op |-> "split", in |-> <<1>>, ax |-> x, form |-> "at", at |-> <<p>>]))
\* positions outside the axis, with a rule for them
Beyond(s) == \E x \in Ax(s) : LET n == s[x + 1] IN n > 0 /\
    \/ \E md \in {"clip", "wrap", "fill"} :
          \E ind \in {[s |-> <<>>, d |-> <<k>>] : k \in {-n - 2, -n - 1, -n, -1, n - 1, n, n + 2}}
                  \cup {[s |-> <<3>>, d |-> <<n, 0, n - 1>>], [s |-> <<3>>, d |-> <<-1, 2 * n + 1, n>>], [s |-> <<2, 2>>, d |-> <<n + 1, 0, n, -n - 1>>]} :
             One(s, [op |-> "take_by", in |-> <<1>>, ax |-> x, v |-> <<ind>>, mode |-> md, fill |-> 0])
    \/ \E md \in {"clip", "fill"} : \E m \in 1..3 : \E f \in 0..1 :
          LET t == SetAt(s, x, m) IN
          One(s, [op |-> "take_along_by", in |-> <<1>>, ax |-> x, mode |-> md, fill |-> 0,
                  v |-> <<[s |-> t, d |-> [i \in 1..Prod(t) |-> (i * (f + 1) + f) % (n + 2)]]>>])
\* options that have a meaning for plain arrays but none for records, and arguments of which only some are records
Options == {<<"concatenate", "dtype">>, <<"stack", "dtype">>, <<"reshape", "order">>, <<"reshape", "copy">>, <<"ravel", "order">>, <<"flatten", "order">>,
            <<"where", "size">>, <<"where", "fill_value">>, <<"take", "out">>, <<"repeat", "total_repeat_length">>,
            <<"full_like", "dtype">>, <<"full_like", "shape">>, <<"zeros_like", "dtype">>, <<"zeros_like", "shape">>, <<"ones_like", "dtype">>, <<"ones_like", "shape">>}
Mixed == {<<o, w>> : o \in {"concat", "concatenate", "stack", "vstack", "hstack", "dstack", "column_stack"}, w \in {"record_array", "array_record", "other_class", "third_array", "empty"}}
         \cup {<<o, w>> : o \in {"equal", "not_equal", "isclose", "allclose"}, w \in {"record_array", "array_record", "other_class"}}
         \cup {<<"where", w>> : w \in {"array_record", "other_class", "alone"}}
         \cup {<<"where_no_broadcast", "other_class">>}
         \cup {<<"update_on_condition", w>> : w \in {"array_record", "other_class"}}
Refused(s) ==
    \/ s \in {<<3>>, <<2, 3>>} /\ \E p \in Options : One(s, [op |-> "refuse", what |-> "option", in |-> <<1>>, fn |-> p[1], opt |-> p[2]])
    \/ s \in {<<3>>, <<2, 3>>} /\ \E p \in Mixed : One(s, [op |-> "refuse", what |-> "mixed", in |-> <<1>>, fn |-> p[1], opt |-> p[2]])
PlainForms(s) ==
    LET n == Prod(s)
        P(e) == One(s, e @@ [op |-> "plain", in |-> <<1>>])
    IN
    \/ n > 0 /\ \E k \in {-n, -1, 0, n - 1} : \/ P([what |-> "take", v |-> <<[s |-> <<>>, d |-> <<k>>]>>])
                                         \/ P([what |-> "take", v |-> <<[s |-> <<2, 2>>, d |-> <<k, 0, n - 1, -1>>]>>])
                                         \/ P([what |-> "roll", sh |-> <<k - 1>>])
    \/ \E k \in 0..2 : P([what |-> "repeat", reps |-> <<k>>])
    \/ P([what |-> "flip"]) \/ P([what |-> "squeeze"]) \/ P([what |-> "ravelF"])
    \/ n > 0 /\ \E t \in Factor(n) : P([what |-> "reshapeF", ns |-> t])
    \/ \E x \in Ax(s) : s[x + 1] > 0 /\ \E m \in {1, 3, 5, 8} :
          \/ \E k \in 1..2 : P([what |-> "repeat_total", ax |-> x, form |-> "int", reps |-> <<k>>, n |-> m])
          \/ P([what |-> "repeat_total", ax |-> x, form |-> "seq", reps |-> [i \in 1..s[x + 1] |-> 1 + (i % 2)], n |-> m])
Tiles(s) == \E q \in Seqs(1..2, 3) : q # <<>> /\ One(s, [op |-> "tile", in |-> <<1>>, reps |-> q])

Joins(s) ==
    \/ \E x \in IF s = <<>> THEN {0} ELSE -Len(s)..Len(s) - 1 : \E m \in 0..2 :
          LET t == IF s = <<>> THEN s ELSE SetAt(s, Norm(x, Len(s)), m)
              q == IF s = <<>> THEN <<2, 1, 3>> ELSE <<2, 1>>
          IN Case(<<A(s), Fresh(t, 20), Fresh(s, 40)>>, [op |-> "concat", in |-> q, ax |-> x])
    \/ \E x \in 0..Len(s) : \E q \in {<<1>>, <<1, 2>>, <<2, 1, 1>>} :
          Case(<<A(s), Fresh(s, 20)>>, [op |-> "stack", in |-> q, ax |-> x])
    \/ \E o \in {"vstack", "hstack", "dstack"} : Case(<<A(s), Fresh(s, 20)>>, [op |-> o, in |-> <<2, 1>>])
    \/ Len(s) \in {1, 2} /\ Case(<<A(s), Fresh(s, 20)>>, [op |-> "column_stack", in |-> <<2, 1, 2>>])
    \/ Len(s) \in {1, 2} /\ \E rows \in {<<<<1, 2>>>>, <<<<1>>, <<2>>>>, <<<<1, 2>>, <<2, 1>>>>} :
          Case(<<A(s), Fresh(s, 20)>>, [op |-> "block", in |-> <<1, 2>>, rows |-> rows])

Pads(s) ==
    LET r == IF s = <<>> THEN 1 ELSE Len(s) IN
    \E m \in {"constant", "edge", "wrap", "reflect", "symmetric"} :
      (m = "constant" \/ Prod(s) > 0) /\ (
      \/ \E k \in 0..2 : One(s, [op |-> "pad", in |-> <<1>>, form |-> "int", w |-> <<k>>, mode |-> m, fill |-> 0])
      \/ \E a, b \in 0..2 : One(s, [op |-> "pad", in |-> <<1>>, form |-> "pair", w |-> <<a, b>>, mode |-> m, fill |-> 0])
      \/ \E q \in [1..2 * r -> 0..1] : One(s, [op |-> "pad", in |-> <<1>>, form |-> "pairs", w |-> [q EXCEPT ![1] = @ * 2], mode |-> m, fill |-> 0])
      \/ r # 2 /\ \E q \in [1..r -> 0..2] : One(s, [op |-> "pad", in |-> <<1>>, form |-> "ints", w |-> q, mode |-> m, fill |-> 0]))

Bools(n) == [1..n -> BOOLEAN]
Wheres(s) ==
    \/ \E q \in BOOLEAN : Case(<<A(s), Fresh(s, 20)>>, [op |-> "where", in |-> <<1, 2>>, v |-> <<[s |-> <<>>, d |-> <<q>>]>>])
    \/ s # <<>> /\ Prod(s) <= 4 /\ \E q \in Bools(Prod(s)) : Case(<<A(s), Fresh(s, 20)>>, [op |-> "where", in |-> <<1, 2>>, v |-> <<[s |-> s, d |-> q]>>])

\* items that can stand on an axis of length n
Opts(S) == {<<>>} \cup {<<x>> : x \in S}
I(v) == [k |-> "i", v |-> v]
S(st, sp, by) == [k |-> "s", st |-> st, sp |-> sp, by |-> by]
Arr1(d) == [k |-> "a", s |-> <<Len(d)>>, d |-> d]
Mask(s, d) == [k |-> "m", s |-> s, d |-> d]
IntItems(n) == {I(v) : v \in -n..n - 1}
SliceItems(n, R, B) == {S(st, sp, by) : st \in Opts(R), sp \in Opts(R), by \in Opts(B)}
Slices1(n) == SliceItems(n, -(n + 1)..n + 1, {-2, -1, 1, 2})
Slices2(n) == SliceItems(n, {1, -1}, {-1, 2})
Arrays(n) == {Arr1(<<n - 1, 0>>), Arr1(<<-1, 0>>), Arr1(<<>>), [k |-> "a", s |-> <<2, 1>>, d |-> <<0, n - 1>>], [k |-> "a", s |-> <<>>, d |-> <<n - 1>>]}
Masks1(n) == {Mask(<<n>>, d) : d \in Bools(n)}
Try(s, ix) == \/ One(s, [op |-> "get", in |-> <<1>>, ix |-> ix])
              \/ DistinctPositions(A(s), ix) /\ \E q \in {IndexPlan(s, ix).s, <<>>} :
                     Case(<<A(s), Fresh(q, 40)>>, [op |-> "set", in |-> <<1, 2>>, ix |-> ix])
Indexes(s) == s # <<>> /\
    LET n == s[1] IN
    \/ n > 0 /\ \E it \in IntItems(n) : Try(s, <<it>>)
    \/ \E it \in Slices1(n) : Try(s, <<it>>)
    \/ n > 0 /\ \E it \in Arrays(n) : Try(s, <<it>>)
    \/ \E it \in Masks1(n) : Try(s, <<it>>)
    \/ Try(s, <<[k |-> "n"]>>)
    \/ Len(s) >= 2 /\ Prod(s) > 0 /\ LET m == s[2] IN
          \/ \E x \in IntItems(n) \cup Slices2(n) \cup Arrays(n), y \in IntItems(m) \cup Slices2(m) : Try(s, <<x, y>>)
          \/ \E x \in IntItems(n) \cup Slices2(n), y \in Arrays(m) : Try(s, <<x, y>>)
          \/ \E x \in {Arr1(<<0, n - 1>>), Arr1(<<0>>)}, y \in {Arr1(<<m - 1, 0>>), [k |-> "a", s |-> <<2, 1>>, d |-> <<0, m - 1>>]} : Try(s, <<x, y>>)
          \/ \E x \in {I(0), Arr1(<<0, -1>>)}, y \in {I(m - 1), Arr1(<<0, -1>>)} : Try(s, <<x, [k |-> "n"], y>>)
          \/ n * m <= 4 /\ \E d \in Bools(n * m) : Try(s, <<Mask(<<n, m>>, d)>>)
          \/ n * m > 4 /\ \E d \in [1..2 -> BOOLEAN] : Try(s, <<Mask(<<n, m>>, [i \in 1..n * m |-> d[(i % 2) + 1]])>>)
    \/ Len(s) >= 3 /\ Prod(s) > 0 /\
          \E x \in {I(0), S(<<>>, <<>>, <<>>), Arr1(<<0, -1>>)}, y \in {I(-1), S(<<>>, <<1>>, <<>>), Arr1(<<0, 0>>)},
             z \in {I(1), S(<<>>, <<>>, <<-1>>), Arr1(<<1, 0>>)} : Try(s, <<x, y, z>>)

Unfit(s) ==
    LET r == Len(s)
        Refuse(regs, e) == ~Fits(e.what, e, regs) /\ Case(regs, e)
        R1(e) == Refuse(<<A(s)>>, e)
    IN
    \/ \E x, y \in -(r + 2)..r + 1 : R1([op |-> "refuse", what |-> "swapaxes", in |-> <<1>>, axes |-> <<x, y>>])
    \/ \E p \in UNION {[1..k -> 0..r + 1] : k \in {r - 1, r, r + 1} \cap 1..3} : R1([op |-> "refuse", what |-> "transpose", in |-> <<1>>, axes |-> p])
    \/ s # <<>> /\ \E x \in {-(r + 2), -(r + 1), r, r + 1} : Refuse(<<A(s), Fresh(s, 30)>>, [op |-> "refuse", what |-> "concat", in |-> <<1, 2>>, ax |-> x])
    \/ s # <<>> /\ \E t \in {SetAt(s, k - 1, 4) : k \in DOMAIN s} \cup {s \o <<2>>, Tail(s)} : \E x \in 0..r - 1 :
          \/ Refuse(<<A(s), Fresh(t, 30)>>, [op |-> "refuse", what |-> "concat", in |-> <<1, 2>>, ax |-> x])
          \/ Refuse(<<A(s), Fresh(t, 30)>>, [op |-> "refuse", what |-> "concat", in |-> <<2, 1>>, ax |-> x])
          \/ Refuse(<<A(s), Fresh(s, 20), Fresh(t, 30)>>, [op |-> "refuse", what |-> "concat", in |-> <<1, 2, 3>>, ax |-> x])
          \/ Refuse(<<A(s), Fresh(t, 30)>>, [op |-> "refuse", what |-> "stack", in |-> <<1, 2>>, ax |-> x])
          \/ Refuse(<<A(s), Fresh(s, 20), Fresh(t, 30)>>, [op |-> "refuse", what |-> "stack", in |-> <<2, 1, 3>>, ax |-> x])
    \/ s # <<>> /\ Prod(s) > 0 /\ \E t \in {<<Prod(s) + 1>>, <<Prod(s) - 1>>, <<Prod(s) * 3>>, <<Prod(s), 3>>, <<2, Prod(s)>>, <<-1, Prod(s) + 1>>, <<-1, 5, Prod(s)>>} :
          R1([op |-> "refuse", what |-> "reshape", in |-> <<1>>, ns |-> t])
    \/ s # <<>> /\ \E x \in Ax(s) : \E k \in 2..4 : s[x + 1] > 0 /\ R1([op |-> "refuse", what |-> "split", in |-> <<1>>, ax |-> x, form |-> "sections", at |-> <<k>>])
    \/ s # <<>> /\ \E k \in 1..4 : k # 1 /\ \E m \in {0, 1} :
          R1([op |-> "refuse", what |-> "pad", in |-> <<1>>, form |-> "pairs", w |-> [i \in 1..2 * k |-> IF i % 2 = 0 THEN m ELSE 1], mode |-> "constant", fill |-> 0])

Next == c.e.op = "none" /\ \E s \in Shapes :
    \/ "axes" \in Families /\ AxisMoves(s)
    \/ "reshapes" \in Families /\ Reshapes(s)
    \/ "gathers" \in Families /\ Gathers(s)
    \/ "tiles" \in Families /\ Tiles(s)
    \/ "joins" \in Families /\ Joins(s)
    \/ "pads" \in Families /\ Pads(s)
    \/ "unfit" \in Families /\ (Unfit(s) \/ Refused(s))
    \/ "rules" \in Families /\ (Beyond(s) \/ PlainForms(s))
    \/ "wheres" \in Families /\ Wheres(s)
    \/ "indexes" \in Families /\ Indexes(s)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* Laws, checked on every case. *)
E == c.e
X == c.regs[1]
Out == Result(c.e, c.regs)
Live == c.e.op \notin {"none", "refuse"}
RECURSIVE Together(_)
Together(as) == IF as = <<>> THEN <<>> ELSE Head(as).d \o Together(Tail(as))
Row(d) == [s |-> <<Len(d)>>, d |-> d]
InOps == Opnds(c.e, c.regs)

WellFormedResults == Live => \A k \in DOMAIN Out : WellFormed(Out[k])
OnlyOperandRecords == Live /\ E.op \notin {"pad", "take_by", "take_along_by"} => \A k \in DOMAIN Out : Range(Out[k].d) \subseteq Range(Together(c.regs))
Conserving == {"transpose", "swapaxes", "moveaxis", "expand_dims", "atleast", "squeeze", "reshape", "flatten", "roll", "flip",
               "rot90", "split", "concat", "stack", "vstack", "hstack", "dstack", "column_stack"}
Conserved == Live /\ E.op \in Conserving => SameBag(Row(Together(Out)), Row(Together(InOps)))
Inverse(p) == [k \in DOMAIN p |-> IndexOf(p, k - 1) - 1]
Opposite ==
    Live => LET y == Out[1] IN
    CASE E.op = "transpose" -> LET p == IF E.axes = <<>> THEN Reverse(Rank(X)) ELSE E.axes IN Transpose(y, Inverse(p)) = X
      [] E.op = "swapaxes" -> Result(E, <<y>>) = <<X>>
      [] E.op = "moveaxis" -> Result([E EXCEPT !.axes = E.dst, !.dst = E.axes], <<y>>) = <<X>>
      [] E.op = "expand_dims" -> Squeeze(y, <<E.ax>>) = X
      [] E.op \in {"reshape", "flatten", "atleast", "squeeze"} -> y.d = X.d
      [] E.op = "roll" -> Roll(y, E.axes, [k \in DOMAIN E.sh |-> -E.sh[k]]) = X
      [] E.op = "flip" -> Flip(y, E.axes) = X
      [] E.op = "rot90" -> /\ Rot90(y, 4 - (E.n % 4), E.axes[1], E.axes[2]) = X
                           /\ y = Rot90(X, -E.n, E.axes[2], E.axes[1])
      [] E.op = "split" -> Concat(Out, E.ax) = X
      [] E.op = "stack" -> \A k \in DOMAIN E.in : Take(y, E.ax, [s |-> <<>>, d |-> <<k - 1>>]) = c.regs[E.in[k]]
      [] E.op \in {"take_by", "take_along_by"} ->  \* positions within the axis: the rule is not needed
           /\ Range(y.d) \subseteq Range(X.d) \cup {0}
           /\ LET w == Result([E EXCEPT !.op = IF @ = "take_by" THEN "take" ELSE "take_along_axis"], c.regs)[1]
              IN (\A k \in DOMAIN V(E).d : V(E).d[k] >= 0 /\ V(E).d[k] < X.s[E.ax + 1]) => y = w
      [] E.op = "plain" ->
           CASE E.what = "reshapeF" -> ColumnMajor(y) = ColumnMajor(X)
             [] E.what \in {"ravelF", "roll", "flip", "squeeze"} -> SameBag(y, Flat(X))
             [] E.what = "repeat_total" -> Len(y.d) * X.s[E.ax + 1] = E.n * Len(X.d)
             [] OTHER -> Range(y.d) \subseteq Range(X.d)
      [] E.op = "repeat" -> E.form = "int" => \A x \in Range(X.d) : Count(y, x) = E.reps[1]
      [] E.op = "tile" -> \A x \in Range(X.d) : Count(y, x) = Prod(E.reps)
      [] E.op = "pad" -> LET b == AtLeast(X, 1)
                             w == PadWidths(Rank(b), [form |-> E.form, v |-> E.w])
                         IN y = X \/ (/\ Get(y, [k \in DOMAIN w |-> S(<<w[k][1]>>, <<w[k][1] + b.s[k]>>, <<>>)]) = b
                                      /\ E.mode = "constant" => Count(y, 0) = Len(y.d) - Len(b.d))
      [] E.op = "broadcast_to" -> Range(y.d) = Range(X.d)
      [] E.op = "where" -> LET z == Where([V(E) EXCEPT !.d = [k \in DOMAIN @ |-> ~@[k]]], X, c.regs[2])
                           IN \A n \in DOMAIN y.d : {y.d[n], z.d[n]} = {X.d[n], c.regs[2].d[n]}
      [] E.op = "get" -> DistinctPositions(X, E.ix) => Set(X, E.ix, y) = X
      [] E.op = "set" -> /\ Get(y, E.ix) = BroadcastTo(c.regs[2], Get(X, E.ix).s)
                         /\ \A n \in DOMAIN X.d : y.d[n] # X.d[n] => X.d[n] \in Range(Get(X, E.ix).d)
      [] OTHER -> TRUE
\* a concatenation is cut back into its parts
ConcatCut == Live /\ E.op = "concat" /\ X.s # <<>> =>
    LET x == Norm(E.ax, Rank(X))
        n == c.regs[2].s[x + 1]
    IN Split(Out[1], x, <<n>>) = InOps
=============================================================================
