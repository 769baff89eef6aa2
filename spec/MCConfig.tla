------------------------------ MODULE MCConfig -------------------------------
(***************************************************************************)
(* A covering array of configurations built by greedy choice: every pair   *)
(* of supported values of two switches occurs in some emitted row, and     *)
(* every unsupported value is paired with one emitted row.                 *)
(***************************************************************************)
EXTENDS Config, Integers, TLC, Json
CONSTANTS Seed, Dev
N == Size(Dev)
Table == TableOf(Dev)
Vs(i) == Vals(Dev, i)
Most == 5                                      \* no switch has more supported values
ASSUME \A i \in 1 .. N : Len(Vs(i)) <= Most
VARIABLES rows, left
Pairs == {p \in (1 .. N) \X (1 .. Most) \X (1 .. N) \X (1 .. Most) : p[1] < p[3] /\ p[2] <= Len(Vs(p[1])) /\ p[4] <= Len(Vs(p[3]))}

\* The pairs that giving switch i value v completes in a partial row (0: not chosen yet).
Gain(row, i, v, lft) == Cardinality({k \in 1 .. N : row[k] # 0 /\ k # i /\
    (IF k < i THEN <<k, row[k], i, v>> ELSE <<i, v, k, row[k]>>) \in lft})
Step == CHOOSE p \in {5, 7, 11} : N % p # 0 /\ \A q \in {5, 7, 11} : q < p => N % q = 0
Order(k) == 1 + ((k * Step + Seed) % N)        \* a prime which does not divide N
Best(row, i, lft) ==
    LET m == Len(Vs(i))
        rank(v) == (v + Seed + Len(rows)) % m
        top == CHOOSE g \in 0 .. N : (\E v \in 1 .. m : Gain(row, i, v, lft) = g) /\ \A v \in 1 .. m : Gain(row, i, v, lft) <= g
    IN CHOOSE v \in 1 .. m : Gain(row, i, v, lft) = top /\ \A w \in 1 .. m : Gain(row, i, w, lft) = top => rank(v) <= rank(w)
RECURSIVE Fill(_, _, _)
Fill(row, k, lft) ==
    IF k > N THEN row
    ELSE LET i == Order(k) IN Fill(IF row[i] # 0 THEN row ELSE [row EXCEPT ![i] = Best(row, i, lft)], k + 1, lft)
Start(p) == [i \in 1 .. N |-> IF i = p[1] THEN p[2] ELSE IF i = p[3] THEN p[4] ELSE 0]
Of(row) == {p \in Pairs : row[p[1]] = p[2] /\ row[p[3]] = p[4]}
Names(row) == [i \in 1 .. N |-> Vs(i)[row[i]]]

BadOnes == UNION {{<<i, Table[i].bad[k]>> : k \in DOMAIN Table[i].bad} : i \in 1 .. N}
Emit(kind, conf, i, v) == PrintT("TR " \o ToJson([kind |-> kind, dev |-> Dev, names |-> [k \in 1 .. N |-> Table[k].name], conf |-> conf, at |-> i, bad |-> v,
    reads |-> IF i = 0 THEN "" ELSE Table[i].reads]))

Init == rows = <<>> /\ left = Pairs
Grow ==
    /\ left # {}
    /\ LET row == Fill(Start(CHOOSE p \in left : TRUE), 1, left) IN
       /\ rows' = Append(rows, row)
       /\ left' = left \ Of(row)
       /\ Emit("row", Names(row), 0, "")
\* Every unsupported value, in a row of otherwise supported values (one where it is asked for).
Spoil ==
    /\ left = {} /\ rows # <<>>
    /\ \A b \in BadOnes :
         LET ask == {k \in 1 .. Len(rows) : Asked(Dev, b[1], Names(rows[k]))}
             k == CHOOSE q \in ask : \A r \in ask : ((q * 7 + Seed) % 31 < (r * 7 + Seed) % 31) \/ ((q * 7 + Seed) % 31 = (r * 7 + Seed) % 31 /\ q <= r)
         IN ask # {} => Emit("bad", [Names(rows[k]) EXCEPT ![b[1]] = b[2]], b[1], b[2])
    /\ rows' = <<>> /\ UNCHANGED left
Next == Grow \/ Spoil
Spec == Init /\ [][Next]_<<rows, left>>

Progress == [][Len(rows') > Len(rows) => Cardinality(left') < Cardinality(left)]_<<rows, left>>
AllAccepted == \A k \in 1 .. Len(rows) : Accepts(Dev, Names(rows[k]))
Covered == (left = {} /\ rows # <<>>) => UNION {Of(rows[k]) : k \in 1 .. Len(rows)} = Pairs
BadRefused == \A b \in BadOnes : Refuses(Dev, b[1], b[2]) /\ ~Accepts(Dev, [k \in 1 .. N |-> IF k = b[1] THEN b[2] ELSE ""])
=============================================================================
