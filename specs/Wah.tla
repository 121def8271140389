-------------------------------- MODULE Wah --------------------------------
(* A bitmap is a length and a set of ones.  The ones are kept as the        *)
(* positions where the value changes, so that long runs cost nothing: t is  *)
(* in T when bit t differs from bit t - 1, all bits before the first and    *)
(* after the last being zero.                                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
VARIABLES m, ev
vars == <<m, ev>>
Ids == 0..5
Empty == [len |-> 0, t |-> {}]
Init == m = [i \in Ids |-> Empty] /\ ev = [op |-> "init"]

Xor(A, B) == (A \ B) \cup (B \ A)
Run(s, n) == IF n = 0 THEN {} ELSE {s, s + n}
Sorted(T) == SetToSortSeq(T, <)
ToSet_(s) == {s[i] : i \in DOMAIN s}
Max2(a, b) == IF a > b THEN a ELSE b
(* value of bit p *)
At(T, p) == Cardinality({x \in T : x <= p}) % 2 = 1
(* toggles of the conjunction of two bitmaps *)
And(A, B) ==
    LET s == Sorted(A \cup B)
        step(acc, x) ==
            LET va == IF x \in A THEN ~acc.va ELSE acc.va
                vb == IF x \in B THEN ~acc.vb ELSE acc.vb
                r == va /\ vb IN
            [va |-> va, vb |-> vb, r |-> r, out |-> IF r # acc.r THEN Append(acc.out, x) ELSE acc.out] IN
    ToSet_(FoldLeft(step, [va |-> FALSE, vb |-> FALSE, r |-> FALSE, out |-> <<>>], s).out)
Or(A, B) == Xor(Xor(A, B), And(A, B))
AndNot(A, B) == Xor(A, And(A, B))
(* number of ones *)
Ones(T) == LET s == Sorted(T) IN
    FoldLeft(LAMBDA acc, i : acc + (s[2 * i] - s[2 * i - 1]), 0, [i \in 1..(Len(s) \div 2) |-> i])
(* position of the n-th one (from 0), -1 past the last *)
Nth(T, n) ==
    LET s == Sorted(T)
        step(acc, i) ==
            LET w == s[2 * i] - s[2 * i - 1] IN
            IF acc.pos >= 0 THEN acc
            ELSE IF acc.n < w THEN [n |-> 0, pos |-> s[2 * i - 1] + acc.n]
            ELSE [n |-> acc.n - w, pos |-> -1] IN
    FoldLeft(step, [n |-> n, pos |-> -1], [i \in 1..(Len(s) \div 2) |-> i]).pos

(* every operation reports the length and the number of ones that result *)
Becomes(i, len, t, rlen, ract) ==
    /\ rlen = len /\ ract = Ones(t)
    /\ m' = [m EXCEPT ![i] = [len |-> len, t |-> t]]
Reset == m' = [i \in Ids |-> Empty]
Clear(i, len, act) == Becomes(i, 0, {}, len, act)
Add0(i, n, len, act) == Becomes(i, m[i].len + n, m[i].t, len, act)
Add1(i, n, len, act) == Becomes(i, m[i].len + n, Xor(m[i].t, Run(m[i].len, n)), len, act)
AddBits(i, n, v, len, act) ==
    Becomes(i, m[i].len + n, Xor(m[i].t, {m[i].len + v[k] : k \in DOMAIN v}), len, act)
(* sets one bit, extending the map if needed *)
SetAt(i, p, len, act) ==
    IF p >= m[i].len THEN Becomes(i, p + 1, Xor(m[i].t, Run(p, 1)), len, act)
    ELSE Becomes(i, m[i].len, IF At(m[i].t, p) THEN m[i].t ELSE Xor(m[i].t, Run(p, 1)), len, act)
(* up to a multiple of 32 bits; a whole word may be added to a map that is one *)
Pad(i, len, act) ==
    /\ len % 32 = 0 /\ len >= m[i].len /\ len <= m[i].len + 32
    /\ Becomes(i, len, m[i].t, len, act)
Binary(i, j, t, len, act) == Becomes(i, Max2(m[i].len, m[j].len), t, len, act)
DoAnd(i, j, len, act) == Binary(i, j, And(m[i].t, m[j].t), len, act)
DoAndNot(i, j, len, act) == Binary(i, j, AndNot(m[i].t, m[j].t), len, act)
DoNotAnd(i, j, len, act) == Binary(i, j, AndNot(m[j].t, m[i].t), len, act)
DoOr(i, j, len, act) == Binary(i, j, Or(m[i].t, m[j].t), len, act)
Complement(i) == Xor(m[i].t, Run(0, m[i].len))
DoNot(i, len, act) == Becomes(i, m[i].len, Complement(i), len, act)
MultiOr(i, s, len, act) ==
    Becomes(i, FoldLeft(LAMBDA a, j : Max2(a, m[j].len), 0, s), FoldLeft(LAMBDA a, j : Or(a, m[j].t), {}, s), len, act)
Copy(i, j, len, act) == Becomes(i, m[j].len, m[j].t, len, act)
Same == UNCHANGED m
Dump(i, c, fmt, len, act) ==
    /\ c = Sorted(m[i].t) /\ fmt /\ len = m[i].len /\ act = Ones(m[i].t) /\ Same
(* stored then loaded back *)
Store(i, ok, e) == ok /\ Dump(i, e.c, e.fmt, e.len, e.act)
(* arbitrary stored words: chunks (bit, run words, literal words); rest: words  *)
(* after the last whole chunk, -1 if a chunk is cut short                       *)
Load(i, e) ==
    LET valid == e.bytes % 4 = 0 /\ e.bytes >= 8 /\ e.rest = 0
        words == FoldLeft(LAMBDA a, c : a + c[2] + c[3], 0, e.ch) IN
    /\ e.ok = valid /\ e.fmt
    /\ IF valid THEN /\ e.c = e.v /\ Becomes(i, 32 * words, ToSet_(e.v), e.len, e.act)
       ELSE Same
(* all maps padded, stored, and loaded with another bucket size *)
Rebucket(lens) ==
    /\ \A i \in Ids : lens[i + 1] = ((m[i].len + 31) \div 32) * 32
    /\ m' = [i \in Ids |-> [len |-> lens[i + 1], t |-> m[i].t]]
Get(i, p, r) == r = (p < m[i].len /\ At(m[i].t, p)) /\ Same
Enum(i, b, v, asc) == asc /\ v = Sorted(IF b = 1 THEN m[i].t ELSE Complement(i)) /\ Same
(* next moves to the following one, skip n passes n ones, past the last they stay at the end *)
Walk(i, rev, steps, keys) ==
    LET T == IF rev THEN Complement(i) ELSE m[i].t
        pos == FoldLeft(LAMBDA acc, s : Append(acc, acc[Len(acc)] + (IF s < 0 THEN 1 ELSE s)), <<0>>, steps) IN
    keys = [k \in DOMAIN pos |-> Nth(T, pos[k])] /\ Same
=============================================================================
