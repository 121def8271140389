------------------------------- MODULE WahMC -------------------------------
(* The algebra on change positions against plain sets of ones, for every    *)
(* pair of bitmaps of up to N bits, and the operations as transitions.      *)
EXTENDS Wah, TLC
CONSTANT N
Bits == 0..(N - 1)
(* the ones of a toggle set, and back *)
Plain(T) == {p \in 0..(2 * N) : At(T, p)}
Tog(S) == {p \in 0..(2 * N + 1) : (p \in S) # (p - 1 \in S)}
LenOf(i) == m[i].len
Two == {0, 1}
Step(o) == ev' = [op |-> o]
Next ==
    \E i \in Two : LET j == 1 - i IN
        \/ \E n \in 0..2 : LenOf(i) + n <= N /\ Add0(i, n, LenOf(i) + n, Ones(m[i].t)) /\ Step("add0")
        \/ \E n \in 0..2 : LenOf(i) + n <= N /\ Add1(i, n, LenOf(i) + n, Ones(m[i].t) + n) /\ Step("add1")
        \/ \E p \in Bits, a \in 0..N : p >= LenOf(i) /\ SetAt(i, p, p + 1, a) /\ Step("at")
        \/ \E l, a \in 0..N : \/ DoAnd(i, j, l, a) /\ Step("and")
                              \/ DoAndNot(i, j, l, a) /\ Step("andnot")
                              \/ DoNotAnd(i, j, l, a) /\ Step("notand")
                              \/ DoOr(i, j, l, a) /\ Step("or")
                              \/ MultiOr(i, <<j, i, j>>, l, a) /\ Step("multior")
                              \/ DoNot(i, l, a) /\ Step("not")
                              \/ Copy(i, j, l, a) /\ Step("copy")
                              \/ Clear(i, l, a) /\ Step("clear")
Spec == Init /\ [][Next]_vars
View == <<m[0], m[1]>>
P(i) == Plain(m[i].t)
Within == \A i \in Two : P(i) \subseteq 0..(LenOf(i) - 1) /\ Tog(P(i)) = m[i].t /\ Ones(m[i].t) = Cardinality(P(i))
Laws ==
    LET A == P(0) B == P(1) S == m[0].t T == m[1].t IN
    /\ Plain(And(S, T)) = A \cap B
    /\ Plain(Or(S, T)) = A \cup B
    /\ Plain(AndNot(S, T)) = A \ B
    /\ Plain(Complement(0)) = (0..(LenOf(0) - 1)) \ A
    /\ \A n \in 0..N : Nth(S, n) = IF n >= Cardinality(A) THEN -1
                                   ELSE CHOOSE p \in A : Cardinality({q \in A : q < p}) = n
=============================================================================
