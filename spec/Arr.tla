-------------------------------- MODULE Arr ---------------------------------
(***************************************************************************)
(* Arrays of records.  A record is an opaque value (its id); an array is   *)
(*    [s |-> batch shape, d |-> row-major sequence of records]             *)
(* and a single record is an array of shape <<>>.  Every operation below   *)
(* says which source record stands at each batch position of the result:   *)
(* records move whole, or not at all.  Axes and positions count from 0.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* ------------------------------------------------------------ shapes
RECURSIVE ProdFrom(_, _)
ProdFrom(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * ProdFrom(s, k + 1)
Prod(s) == ProdFrom(s, 1)

RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)

\* multi-index of linear position n (both 0-based), and back
Unr(s, n) == [k \in DOMAIN s |-> (n \div ProdFrom(s, k + 1)) % s[k]]
RECURSIVE LinFrom(_, _, _)
LinFrom(s, m, k) == IF k > Len(s) THEN 0 ELSE m[k] * ProdFrom(s, k + 1) + LinFrom(s, m, k + 1)
Lin(s, m) == LinFrom(s, m, 1)

Rank(a) == Len(a.s)
At(a, m) == a.d[Lin(a.s, m) + 1]
Build(s, F(_)) == [s |-> s, d |-> [n \in 1..Prod(s) |-> F(Unr(s, n - 1))]]
Norm(ax, r) == IF ax < 0 THEN ax + r ELSE ax
WellFormed(a) == Len(a.d) = Prod(a.s)

InsertAt(s, k, x) == [i \in 1..Len(s) + 1 |-> IF i <= k THEN s[i] ELSE IF i = k + 1 THEN x ELSE s[i - 1]]
RemoveAt(s, k) == [i \in 1..Len(s) - 1 |-> IF i <= k THEN s[i] ELSE s[i + 1]]
SetAt(s, k, x) == [s EXCEPT ![k + 1] = x]
IndexOf(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Range(s) == {s[i] : i \in DOMAIN s}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == Min(S) IN <<m>> \o SortSet(S \ {m})
Iota(n) == [i \in 1..n |-> i - 1]
Rep(n, x) == [i \in 1..n |-> x]
Flat(a) == [s |-> <<Prod(a.s)>>, d |-> a.d]

\* ------------------------------------------------------------ axis rearrangement
Transpose(a, axes) ==
    Build([k \in DOMAIN axes |-> a.s[axes[k] + 1]],
          LAMBDA m : At(a, [j \in DOMAIN a.s |-> m[IndexOf(axes, j - 1)]]))
Reverse(n) == [i \in 1..n |-> n - i]
SwapPerm(r, a1, a2) == [i \in 1..r |-> IF i - 1 = a1 THEN a2 ELSE IF i - 1 = a2 THEN a1 ELSE i - 1]
RECURSIVE InsertAll(_, _, _)
\* insert the pairs of dst -> src in ascending order of destination
InsertAll(order, src, dst) ==
    IF dst = <<>> THEN order
    ELSE LET k == CHOOSE k \in DOMAIN dst : \A j \in DOMAIN dst : dst[k] <= dst[j]
         IN InsertAll(InsertAt(order, dst[k], src[k]), RemoveAt(src, k - 1), RemoveAt(dst, k - 1))
MovePerm(r, src, dst) == InsertAll(SelectSeq(Iota(r), LAMBDA x : x \notin Range(src)), src, dst)

\* ------------------------------------------------------------ reshaping
\* at most one -1 in ns stands for what remains
InferShape(total, ns) ==
    LET rest == Prod(SelectSeq(ns, LAMBDA x : x # -1))
    IN [k \in DOMAIN ns |-> IF ns[k] = -1 THEN total \div rest ELSE ns[k]]
Reshape(a, ns) == [s |-> InferShape(Len(a.d), ns), d |-> a.d]
ExpandDims(a, ax) == [s |-> InsertAt(a.s, ax, 1), d |-> a.d]
Squeeze(a, axes) == [s |-> [k \in 1..Len(a.s) - Len(axes) |->
                               a.s[SortSet({i \in DOMAIN a.s : i - 1 \notin Range(axes)})[k]]], d |-> a.d]
BroadcastTo(a, s) ==
    LET off == Len(s) - Len(a.s)
    IN Build(s, LAMBDA m : At(a, [k \in DOMAIN a.s |-> IF a.s[k] = 1 THEN 0 ELSE m[k + off]]))
BroadcastShape(s, t) ==
    LET r == IF Len(s) > Len(t) THEN Len(s) ELSE Len(t)
        dim(u, k) == IF k + Len(u) - r < 1 THEN 1 ELSE u[k + Len(u) - r]
    IN [k \in 1..r |-> IF dim(s, k) = 1 THEN dim(t, k) ELSE dim(s, k)]
AtLeast(a, n) ==
    CASE n = 1 -> IF Rank(a) = 0 THEN [a EXCEPT !.s = <<1>>] ELSE a
      [] n = 2 -> IF Rank(a) = 0 THEN [a EXCEPT !.s = <<1, 1>>]
                  ELSE IF Rank(a) = 1 THEN [a EXCEPT !.s = <<1>> \o @] ELSE a
      [] n = 3 -> IF Rank(a) = 0 THEN [a EXCEPT !.s = <<1, 1, 1>>]
                  ELSE IF Rank(a) = 1 THEN [a EXCEPT !.s = <<1>> \o @ \o <<1>>]
                  ELSE IF Rank(a) = 2 THEN [a EXCEPT !.s = @ \o <<1>>] ELSE a

\* ------------------------------------------------------------ gathering along an axis
\* positions pos (0-based) along axis ax, in that order
Gather(a, ax, pos) == Build(SetAt(a.s, ax, Len(pos)), LAMBDA m : At(a, [m EXCEPT ![ax + 1] = pos[m[ax + 1] + 1]]))
Take(a, ax, ind) ==
    LET n == a.s[ax + 1]
        r == Len(ind.s)
    IN Build(SubSeq(a.s, 1, ax) \o ind.s \o SubSeq(a.s, ax + 2, Len(a.s)),
             LAMBDA m : At(a, SubSeq(m, 1, ax) \o <<Norm(At(ind, SubSeq(m, ax + 1, ax + r)), n)>>
                                \o SubSeq(m, ax + r + 1, Len(m))))
TakeAlong(a, ax, ind) ==
    Build(SetAt(a.s, ax, ind.s[ax + 1]),
          LAMBDA m : At(a, [m EXCEPT ![ax + 1] =
              Norm(At(ind, [k \in DOMAIN ind.s |-> IF ind.s[k] = 1 THEN 0 ELSE m[k]]), a.s[ax + 1])]))
\* the same with a rule for positions outside the axis; -1 stands for the fill record
Rule(mode, p, n) ==
    CASE mode = "clip" -> IF p < 0 THEN 0 ELSE IF p >= n THEN n - 1 ELSE p
      [] mode = "wrap" -> p % n
      [] mode = "fill" -> IF p >= -n /\ p < n THEN Norm(p, n) ELSE -1
TakeBy(a, ax, ind, mode, fill) ==
    LET n == a.s[ax + 1]
        r == Len(ind.s)
    IN Build(SubSeq(a.s, 1, ax) \o ind.s \o SubSeq(a.s, ax + 2, Len(a.s)),
             LAMBDA m : LET p == Rule(mode, At(ind, SubSeq(m, ax + 1, ax + r)), n)
                        IN IF p = -1 THEN fill ELSE At(a, SubSeq(m, 1, ax) \o <<p>> \o SubSeq(m, ax + r + 1, Len(m))))
TakeAlongBy(a, ax, ind, mode, fill) ==
    Build(SetAt(a.s, ax, ind.s[ax + 1]),
          LAMBDA m : LET p == Rule(mode, At(ind, [k \in DOMAIN ind.s |-> IF ind.s[k] = 1 THEN 0 ELSE m[k]]), a.s[ax + 1])
                     IN IF p = -1 THEN fill ELSE At(a, [m EXCEPT ![ax + 1] = p]))
RECURSIVE RepeatPos(_, _)
RepeatPos(reps, k) == IF k > Len(reps) THEN <<>> ELSE Rep(reps[k], k - 1) \o RepeatPos(reps, k + 1)
Repeat(a, ax, reps) == Gather(a, ax, RepeatPos(reps, 1))
Roll1(a, ax, sh) == LET n == a.s[ax + 1] IN Gather(a, ax, [i \in 1..n |-> (i - 1 - sh) % n])
Flip1(a, ax) == LET n == a.s[ax + 1] IN Gather(a, ax, [i \in 1..n |-> n - i])
RECURSIVE Roll(_, _, _)
Roll(a, axes, shs) == IF axes = <<>> THEN a ELSE Roll(Roll1(a, Head(axes), Head(shs)), Tail(axes), Tail(shs))
RECURSIVE Flip(_, _)
Flip(a, axes) == IF axes = <<>> THEN a ELSE Flip(Flip1(a, Head(axes)), Tail(axes))
Rot90(a, k, x, y) ==
    LET p == SwapPerm(Rank(a), x, y)
    IN CASE k % 4 = 0 -> a
         [] k % 4 = 1 -> Transpose(Flip1(a, y), p)
         [] k % 4 = 2 -> Flip1(Flip1(a, x), y)
         [] k % 4 = 3 -> Flip1(Transpose(a, p), y)
Tile(a, reps) ==
    LET r == IF Len(reps) > Rank(a) THEN Len(reps) ELSE Rank(a)
        s0 == Rep(r - Rank(a), 1) \o a.s
        q == Rep(r - Len(reps), 1) \o reps
        b == [s |-> s0, d |-> a.d]
    IN Build([k \in 1..r |-> s0[k] * q[k]], LAMBDA m : At(b, [k \in 1..r |-> m[k] % s0[k]]))

\* ------------------------------------------------------------ joining and cutting
RECURSIVE Sizes(_, _, _)
Sizes(as, ax, k) == IF k = 0 THEN 0 ELSE as[k].s[ax + 1] + Sizes(as, ax, k - 1)
Concat(as, ax) ==
    Build(SetAt(as[1].s, ax, Sizes(as, ax, Len(as))),
          LAMBDA m : LET p == m[ax + 1]
                         k == CHOOSE k \in DOMAIN as : Sizes(as, ax, k - 1) <= p /\ p < Sizes(as, ax, k)
                     IN At(as[k], [m EXCEPT ![ax + 1] = p - Sizes(as, ax, k - 1)]))
Stack(as, ax) == Concat([k \in DOMAIN as |-> ExpandDims(as[k], ax)], ax)
\* cut before each of the positions in `at` (ascending, within 0..n)
Split(a, ax, at) ==
    LET cuts == <<0>> \o at \o <<a.s[ax + 1]>>
    IN [k \in 1..Len(at) + 1 |->
          Gather(a, ax, [i \in 1..(IF cuts[k + 1] > cuts[k] THEN cuts[k + 1] - cuts[k] ELSE 0) |-> cuts[k] + i - 1])]
Sections(n, k) == [i \in 1..k - 1 |-> i * (n \div k)]
VStack(as) == Concat([k \in DOMAIN as |-> AtLeast(as[k], 2)], 0)
HStack(as) == LET b == [k \in DOMAIN as |-> AtLeast(as[k], 1)] IN Concat(b, IF Rank(b[1]) = 1 THEN 0 ELSE 1)
DStack(as) == Concat([k \in DOMAIN as |-> AtLeast(as[k], 3)], 2)
ColumnStack(as) == Concat([k \in DOMAIN as |-> IF Rank(as[k]) = 2 THEN as[k]
                              ELSE [s |-> <<Len(as[k].d), 1>>, d |-> as[k].d]], 1)
\* rows: a list of lists of arrays of rank 1 or 2
Block(rows) == Concat([i \in DOMAIN rows |->
                  LET row == [j \in DOMAIN rows[i] |-> AtLeast(rows[i][j], 2)] IN Concat(row, 1)], 0)

\* ------------------------------------------------------------ padding
\* source position along an axis of length n for (possibly outside) position p, or -1 for fill
PadPos(mode, n, p) ==
    CASE 0 <= p /\ p < n -> p
      [] mode = "constant" -> -1
      [] mode = "edge" -> IF p < 0 THEN 0 ELSE n - 1
      [] mode = "wrap" -> p % n
      [] mode = "reflect" -> IF n = 1 THEN 0 ELSE LET q == p % (2 * (n - 1)) IN IF q < n THEN q ELSE 2 * (n - 1) - q
      [] mode = "symmetric" -> LET q == p % (2 * n) IN IF q < n THEN q ELSE 2 * n - 1 - q
\* w[k] = <<before, after>>; a single record is padded as a batch of one
Pad(a0, w, mode, fill) ==
    LET a == AtLeast(a0, 1)
    IN Build([k \in DOMAIN a.s |-> a.s[k] + w[k][1] + w[k][2]],
             LAMBDA m : LET p == [k \in DOMAIN a.s |-> PadPos(mode, a.s[k], m[k] - w[k][1])]
                        IN IF \E k \in DOMAIN p : p[k] = -1 THEN fill ELSE At(a, p))
\* the ways a pad width may be written, for a batch of rank r
PadWidths(r, pw) ==
    CASE pw.form = "int" -> Rep(r, <<pw.v[1], pw.v[1]>>)
      [] pw.form = "pair" -> <<<<pw.v[1], pw.v[2]>>>> \o Rep(r - 1, <<0, 0>>)
      [] pw.form = "pairs" -> [k \in 1..r |-> <<pw.v[2 * k - 1], pw.v[2 * k]>>]
      [] pw.form = "ints" -> [k \in 1..r |-> <<pw.v[k], pw.v[k]>>]

FillLike(a, fill) == [s |-> a.s, d |-> [n \in DOMAIN a.d |-> fill]]
\* cond: array of booleans of the same shape or shape <<>>
Where(c, x, y) == [s |-> x.s, d |-> [n \in DOMAIN x.d |->
                     IF (IF c.s = <<>> THEN c.d[1] ELSE c.d[n]) THEN x.d[n] ELSE BroadcastTo(y, x.s).d[n]]]

\* ------------------------------------------------------------ indexing
(* An index is a list of items, one per batch axis from the left:                                       *)
(*   [k |-> "i", v]            one position                                                              *)
(*   [k |-> "s", st, sp, by]   slice; each of st, sp, by is <<>> (absent) or <<n>>                        *)
(*   [k |-> "a", s, d]         array of positions                                                        *)
(*   [k |-> "m", s, d]         boolean mask over Len(s) axes                                             *)
(*   [k |-> "n"]               new axis                                                                  *)
Opt(x, default) == IF x = <<>> THEN default ELSE x[1]
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SlicePos(n, it) ==
    LET by == Opt(it.by, 1)
        st == IF it.st = <<>> THEN (IF by > 0 THEN 0 ELSE n - 1)
              ELSE (IF by > 0 THEN Clamp(Norm(it.st[1], n), 0, n) ELSE Clamp(Norm(it.st[1], n), -1, n - 1))
        sp == IF it.sp = <<>> THEN (IF by > 0 THEN n ELSE -1)
              ELSE (IF by > 0 THEN Clamp(Norm(it.sp[1], n), 0, n) ELSE Clamp(Norm(it.sp[1], n), -1, n - 1))
        cnt == IF by > 0 THEN (IF sp > st THEN (sp - st + by - 1) \div by ELSE 0)
               ELSE (IF st > sp THEN (st - sp + (-by) - 1) \div (-by) ELSE 0)
    IN [i \in 1..cnt |-> st + (i - 1) * by]

\* a mask is the list of its true positions, axis by axis
TruePos(it) == SortSet({n \in 0..Prod(it.s) - 1 : it.d[n + 1]})
MaskItems(it) == LET t == TruePos(it) IN
    [k \in DOMAIN it.s |-> [k |-> "a", s |-> <<Len(t)>>, d |-> [i \in DOMAIN t |-> Unr(it.s, t[i])[k]]]]
RECURSIVE ExpandMasks(_)
ExpandMasks(ix) == IF ix = <<>> THEN <<>>
                   ELSE (IF Head(ix).k = "m" THEN MaskItems(Head(ix)) ELSE <<Head(ix)>>) \o ExpandMasks(Tail(ix))
Consumed(ix) == Cardinality({j \in DOMAIN ix : ix[j].k # "n"})
FullSlice == [k |-> "s", st |-> <<>>, sp |-> <<>>, by |-> <<>>]

\* Where the records of the result come from: result shape and, per result position, the source position.
IndexPlan(s, ix0) ==
    LET ix1 == ExpandMasks(ix0)
        ix == ix1 \o Rep(Len(s) - Consumed(ix1), FullSlice)
        J == DOMAIN ix
        axisOf == [j \in J |-> Cardinality({i \in J : i < j /\ ix[i].k # "n"}) + 1]
        arrs == {j \in J : ix[j].k = "a"}
        adv == IF arrs = {} THEN {} ELSE {j \in J : ix[j].k \in {"a", "i"}}
        bs == IF arrs = {} THEN <<>> ELSE ix[CHOOSE j \in arrs : \A i \in arrs : Len(ix[i].s) <= Len(ix[j].s)].s
        contiguous == adv = {} \/ Max(adv) - Min(adv) + 1 = Cardinality(adv)
        plain == SelectSeq([j \in J |-> j], LAMBDA j : ix[j].k \in {"s", "n"})
        \* slots of the result: 0 stands for the broadcast shape of the advanced items
        slots == IF adv = {} THEN plain
                 ELSE IF ~contiguous THEN <<0>> \o plain
                 ELSE SelectSeq(plain, LAMBDA j : j < Min(adv)) \o <<0>> \o SelectSeq(plain, LAMBDA j : j > Min(adv))
        posn == [j \in J |-> IF ix[j].k = "s" THEN SlicePos(s[axisOf[j]], ix[j]) ELSE <<>>]
        width(q) == IF slots[q] = 0 THEN Len(bs) ELSE 1
        RECURSIVE start(_)
        start(q) == IF q = 1 THEN 1 ELSE start(q - 1) + width(q - 1)
        RECURSIVE shapeFrom(_)
        shapeFrom(q) == IF q > Len(slots) THEN <<>>
                        ELSE (IF slots[q] = 0 THEN bs ELSE IF ix[slots[q]].k = "n" THEN <<1>> ELSE <<Len(posn[slots[q]])>>)
                             \o shapeFrom(q + 1)
        out == shapeFrom(1)
        slotOf(j) == CHOOSE q \in DOMAIN slots : slots[q] = j
        advm(m) == LET q == slotOf(0) IN SubSeq(m, start(q), start(q) + Len(bs) - 1)
        axisItem == [x \in DOMAIN s |-> CHOOSE j \in J : ix[j].k # "n" /\ axisOf[j] = x]
        pick(m, x) ==
            LET j == axisItem[x] IN
            CASE ix[j].k = "i" -> Norm(ix[j].v, s[x])
              [] ix[j].k = "a" -> Norm(At(BroadcastTo([s |-> ix[j].s, d |-> ix[j].d], bs), advm(m)), s[x])
              [] ix[j].k = "s" -> posn[j][m[start(slotOf(j))] + 1]
    IN [s |-> out, src |-> [n \in 1..Prod(out) |-> LET m == Unr(out, n - 1) IN Lin(s, [x \in DOMAIN s |-> pick(m, x)])]]

Get(a, ix) == LET p == IndexPlan(a.s, ix) IN [s |-> p.s, d |-> [n \in DOMAIN p.src |-> a.d[p.src[n] + 1]]]
\* indexed assignment; the positions named must be distinct
Set(a, ix, v) ==
    LET p == IndexPlan(a.s, ix)
        b == BroadcastTo(v, p.s)
    IN [s |-> a.s, d |-> [n \in DOMAIN a.d |->
          IF \E i \in DOMAIN p.src : p.src[i] = n - 1 THEN b.d[CHOOSE i \in DOMAIN p.src : p.src[i] = n - 1] ELSE a.d[n]]]
DistinctPositions(a, ix) == LET p == IndexPlan(a.s, ix) IN Cardinality(Range(p.src)) = Len(p.src)

\* ------------------------------------------------------------ conditional update
(* pos[k]: the position entry k names (anything outside 0..n-1 names nothing).  Entries are applied so   *)
(* that the first entry with a true condition decides; a row is everything behind the named axes.         *)
Upd(a, nax, pos, cond, v) ==
    LET rows == Prod(SubSeq(a.s, 1, nax))
        rest == SubSeq(a.s, nax + 1, Len(a.s))
        w == Prod(rest)
        b == BroadcastTo(v, <<Len(pos)>> \o rest)
        firsts == [p \in 0..rows - 1 |-> {k \in DOMAIN pos : cond[k] /\ pos[k] = p}]
    IN [s |-> a.s, d |-> [n \in DOMAIN a.d |->
          LET p == (n - 1) \div w
          IN IF firsts[p] = {} THEN a.d[n] ELSE b.d[(Min(firsts[p]) - 1) * w + ((n - 1) % w) + 1]]]
\* the same, told as a loop over the entries from last to first
RECURSIVE UpdSeq(_, _, _, _)
UpdSeq(a, pos, cond, v) ==
    IF pos = <<>> THEN a
    ELSE LET n == Len(pos)
             b == IF cond[n] /\ pos[n] \in 0..Len(a.d) - 1 THEN [a EXCEPT !.d[pos[n] + 1] = v[n]] ELSE a
         IN UpdSeq(b, SubSeq(pos, 1, n - 1), SubSeq(cond, 1, n - 1), SubSeq(v, 1, n - 1))

\* ------------------------------------------------------------ operations as events
(* An operation is a record e: its name e.op, its operands e.in (register numbers) and its arguments.   *)
(* Result(e, r) is the list of arrays it yields when the registers hold r.                                *)
\* the k-th operand of an event
Opnd(e, r, k) == r[e.in[k]]
Opnds(e, r) == [k \in DOMAIN e.in |-> Opnd(e, r, k)]
Axes(e, a) == [k \in DOMAIN e.axes |-> Norm(e.axes[k], Rank(a))]
V(e) == e.v[1]

\* ---------------------------------------------------------------- what each operation yields
Rows(e, r) == [i \in DOMAIN e.rows |-> [j \in DOMAIN e.rows[i] |-> r[e.rows[i][j]]]]
UpdPos(e, a) ==
    LET bs == SubSeq(a.s, 1, Len(e.tup))
    IN IF e.form = "tuple" THEN [k \in DOMAIN e.cond |-> Lin(bs, [x \in DOMAIN e.tup |-> e.tup[x][k]])]
       ELSE IF e.form = "slice" THEN SlicePos(a.s[1], e.ix[1])
       ELSE e.pos
UpdAxes(e) == IF e.form = "tuple" THEN Len(e.tup) ELSE 1
UpdCond(e, n) == IF Len(e.cond) = n THEN e.cond ELSE Rep(n, e.cond[1])

\* ---------------------------------------------------------------- forms that only plain arrays have
\* (an array without an axis is taken flat; order "F" counts the first axis fastest)
FShape(s) == Reverse(Len(s))
ColumnMajor(a) == Flat(Transpose(a, FShape(a.s)))
FromColumns(d, s) == Transpose([s |-> [k \in DOMAIN s |-> s[Len(s) + 1 - k]], d |-> d], FShape(s))
CutTo(d, n) == [k \in 1..n |-> IF k <= Len(d) THEN d[k] ELSE d[Len(d)]]
Plain(e, a) ==
    CASE e.what = "take" -> Take(Flat(a), 0, V(e))
      [] e.what = "repeat" -> Repeat(Flat(a), 0, Rep(Len(a.d), e.reps[1]))
      [] e.what = "repeat_total" -> LET n == a.s[e.ax + 1]
                                        p == RepeatPos(IF e.form = "int" THEN Rep(n, e.reps[1]) ELSE e.reps, 1)
                                    IN Gather(a, e.ax, CutTo(p, e.n))
      [] e.what = "roll" -> [a EXCEPT !.d = Roll1(Flat(a), 0, e.sh[1]).d]
      [] e.what = "flip" -> Flip(a, Iota(Rank(a)))
      [] e.what = "squeeze" -> [a EXCEPT !.s = SelectSeq(@, LAMBDA n : n # 1)]
      [] e.what = "ravelF" -> ColumnMajor(a)
      [] e.what = "reshapeF" -> FromColumns(ColumnMajor(a).d, e.ns)

Result(e, r) ==
    LET a == Opnd(e, r, 1) IN
    CASE e.op = "show" -> <<a>>
      [] e.op = "concat" -> IF Rank(a) = 0 THEN <<Stack(Opnds(e, r), 0)>> ELSE <<Concat(Opnds(e, r), Norm(e.ax, Rank(a)))>>
      [] e.op = "stack" -> <<Stack(Opnds(e, r), e.ax)>>
      [] e.op = "vstack" -> <<VStack(Opnds(e, r))>>
      [] e.op = "hstack" -> <<HStack(Opnds(e, r))>>
      [] e.op = "dstack" -> <<DStack(Opnds(e, r))>>
      [] e.op = "column_stack" -> <<ColumnStack(Opnds(e, r))>>
      [] e.op = "block" -> <<Block(Rows(e, r))>>
      [] e.op = "split" -> Split(a, e.ax, IF e.form = "sections" THEN Sections(a.s[e.ax + 1], e.at[1]) ELSE e.at)
      [] e.op = "pad" -> LET b == AtLeast(a, 1)
                             w == PadWidths(Rank(b), [form |-> e.form, v |-> e.w])
                         IN IF \A k \in DOMAIN w : w[k] = <<0, 0>> THEN <<a>> ELSE <<Pad(a, w, e.mode, e.fill)>>
      [] e.op = "reshape" -> <<Reshape(a, e.ns)>>
      [] e.op = "flatten" -> <<Flat(a)>>
      [] e.op = "transpose" -> <<Transpose(a, IF e.axes = <<>> THEN Reverse(Rank(a)) ELSE e.axes)>>
      [] e.op = "swapaxes" -> LET x == Axes(e, a) IN <<Transpose(a, SwapPerm(Rank(a), x[1], x[2]))>>
      [] e.op = "moveaxis" -> <<Transpose(a, MovePerm(Rank(a), e.axes, e.dst))>>
      [] e.op = "expand_dims" -> <<ExpandDims(a, e.ax)>>
      [] e.op = "squeeze" -> <<Squeeze(a, e.axes)>>
      [] e.op = "broadcast_to" -> <<BroadcastTo(a, e.ns)>>
      [] e.op = "broadcast_arrays" ->
             LET s == BroadcastShape(a.s, Opnd(e, r, 2).s) IN <<BroadcastTo(a, s), BroadcastTo(Opnd(e, r, 2), s)>>
      [] e.op = "atleast" -> [k \in DOMAIN e.in |-> AtLeast(Opnd(e, r, k), e.n)]
      [] e.op = "take" -> <<Take(a, e.ax, V(e))>>
      [] e.op = "take_along_axis" -> <<TakeAlong(a, e.ax, V(e))>>
      [] e.op = "take_by" -> <<TakeBy(a, e.ax, V(e), e.mode, e.fill)>>
      [] e.op = "take_along_by" -> <<TakeAlongBy(a, e.ax, V(e), e.mode, e.fill)>>
      [] e.op = "plain" -> <<Plain(e, a)>>
      [] e.op = "repeat" -> <<Repeat(a, e.ax, IF e.form = "int" THEN Rep(a.s[e.ax + 1], e.reps[1]) ELSE e.reps)>>
      [] e.op = "tile" -> <<Tile(a, e.reps)>>
      [] e.op = "roll" -> <<Roll(a, e.axes, e.sh)>>
      [] e.op = "flip" -> <<Flip(a, e.axes)>>
      [] e.op = "rot90" -> <<Rot90(a, e.n, e.axes[1], e.axes[2])>>
      [] e.op = "full_like" -> <<FillLike(a, e.fill)>>
      [] e.op = "where" -> <<Where(V(e), a, Opnd(e, r, 2))>>
      [] e.op = "get" -> <<Get(a, e.ix)>>
      [] e.op = "set" -> <<Set(a, e.ix, IF Len(e.in) = 2 THEN Opnd(e, r, 2) ELSE V(e))>>
      [] e.op = "upd" -> LET p == UpdPos(e, a)
                         IN <<Upd(a, UpdAxes(e), p, UpdCond(e, Len(p)), IF Len(e.in) = 2 THEN Opnd(e, r, 2) ELSE V(e))>>

\* ------------------------------------------------------------ what cannot be done
(* Arguments that name no rearrangement of whole records: axes that are    *)
(* not batch axes, batches which do not fit each other, another number of  *)
(* records.  (The axes beyond the batch belong to the fields.)             *)
AxisOf(x, n) == x >= -n /\ x < n
FitsJoin(s, t, ax) == /\ Len(s) = Len(t)
                      /\ \A k \in DOMAIN s : k = ax + 1 \/ s[k] = t[k]
Known(t) == SelectSeq(t, LAMBDA n : n # -1)
Fits(what, e, r) ==
    LET a == Opnd(e, r, 1)
        n == Rank(a)
    IN CASE what \in {"option", "mixed"} -> FALSE
         [] what = "swapaxes" -> \A k \in DOMAIN e.axes : AxisOf(e.axes[k], n)
         [] what = "transpose" -> e.axes = <<>> \/ (Len(e.axes) = n /\ Range(e.axes) = 0..n - 1)
         [] what = "concat" -> IF n = 0 THEN e.ax = 0 /\ \A k \in DOMAIN e.in : Rank(Opnd(e, r, k)) = 0
                               ELSE AxisOf(e.ax, n) /\ \A k \in DOMAIN e.in : FitsJoin(a.s, Opnd(e, r, k).s, Norm(e.ax, n))
         [] what = "stack" -> \A k \in DOMAIN e.in : Opnd(e, r, k).s = a.s
         [] what = "reshape" -> IF -1 \in Range(e.ns) THEN Len(Known(e.ns)) = Len(e.ns) - 1 /\ Prod(Known(e.ns)) > 0 /\ Len(a.d) % Prod(Known(e.ns)) = 0
                                ELSE Prod(e.ns) = Len(a.d)
         [] what = "split" -> e.form = "at" \/ a.s[e.ax + 1] % e.at[1] = 0
         [] what = "pad" -> e.form = "int" \/ Len(e.w) = 2 * n

\* ------------------------------------------------------------ bookkeeping
Kind(s) == IF s = <<>> THEN "SINGLE" ELSE "BATCHED"
Length(s) == IF s = <<>> THEN 1 ELSE s[1]
Count(a, x) == Cardinality({n \in DOMAIN a.d : a.d[n] = x})
SameBag(a, b) == Len(a.d) = Len(b.d) /\ \A x \in Range(a.d) : Count(a, x) = Count(b, x)
=============================================================================
