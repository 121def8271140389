------------------------------- MODULE Num --------------------------------
(* C31: the numbers written in a text. Numbers are a sign and the decimal    *)
(* digits of their magnitude (no leading zero, <<>> is zero), so that no     *)
(* bound of the machine appears but in the results.                          *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets
VARIABLES ev
vars == <<ev>>
Take(s, n) == SubSeq(s, 1, n)
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Idx(s) == [i \in 1..Len(s) |-> i]

(* ---- magnitudes ---- *)
RECURSIVE DecOf(_)
DecOf(n) == IF n = 0 THEN <<>> ELSE Append(DecOf(n \div 10), n % 10)
(* d * k + c for small k and c *)
RECURSIVE MulAdd_(_, _, _, _, _)
MulAdd_(d, k, c, i, acc) == IF i = 0 THEN DecOf(c) \o acc
                            ELSE LET x == d[i] * k + c IN MulAdd_(d, k, x \div 10, i - 1, <<x % 10>> \o acc)
MulAdd(d, k, c) == IF d = <<>> THEN DecOf(c) ELSE IF k = 0 THEN DecOf(c) ELSE MulAdd_(d, k, c, Len(d), <<>>)
Magn(ds, base) == FoldLeft(LAMBDA a, x : MulAdd(a, base, x), <<>>, ds)
MLess(a, b) == \/ Len(a) < Len(b)
               \/ /\ Len(a) = Len(b)
                  /\ LET k == SelectSeq(Idx(a), LAMBDA i : a[i] # b[i]) IN k # <<>> /\ a[k[1]] < b[k[1]]
RECURSIVE Trim0(_)
Trim0(d) == IF d # <<>> /\ d[1] = 0 THEN Trim0(Tail(d)) ELSE d
RECURSIVE Add_(_, _, _, _)
Add_(a, b, c, acc) == IF a = <<>> /\ b = <<>> THEN DecOf(c) \o acc
    ELSE LET x == (IF a = <<>> THEN 0 ELSE a[Len(a)]) + (IF b = <<>> THEN 0 ELSE b[Len(b)]) + c
             f(q) == IF q = <<>> THEN q ELSE Take(q, Len(q) - 1)
         IN Add_(f(a), f(b), x \div 10, <<x % 10>> \o acc)
MAdd(a, b) == Trim0(Add_(a, b, 0, <<>>))
(* ---- signed numbers ---- *)
N(neg, d) == [neg |-> neg /\ d # <<>>, d |-> d]
Zero == N(FALSE, <<>>)
NLess(a, b) == IF a.neg THEN (IF b.neg THEN MLess(b.d, a.d) ELSE TRUE) ELSE ~b.neg /\ MLess(a.d, b.d)
I31 == <<2,1,4,7,4,8,3,6,4,7>>   I31n == <<2,1,4,7,4,8,3,6,4,8>>
U32 == <<4,2,9,4,9,6,7,2,9,5>>
I63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>   I63n == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
U64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
Lo(k) == CASE k = "i" -> N(TRUE, I31n) [] k = "l" -> N(TRUE, I63n) [] OTHER -> Zero
Hi(k) == CASE k = "i" -> N(FALSE, I31) [] k = "l" -> N(FALSE, I63) [] k = "u" -> N(FALSE, U32) [] OTHER -> N(FALSE, U64)
Fits(v, k) == ~NLess(v, Lo(k)) /\ ~NLess(Hi(k), v)
Clamp(v, lo, hi) == IF NLess(v, lo) THEN lo ELSE IF NLess(hi, v) THEN hi ELSE v

(* ---- texts ---- *)
Space(c) == c \in 9..13 \/ c = 32
Alpha(c) == c \in 65..90 \/ c \in 97..122
Digit(c) == c \in 48..57
Dv(c) == IF Digit(c) THEN c - 48 ELSE IF c \in 97..122 THEN c - 87 ELSE IF c \in 65..90 THEN c - 55 ELSE 99
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
(* the first place from i where the test fails *)
Span(s, i, T(_)) == LET k == {j \in i..Len(s) : ~T(s[j])} IN
                    IF k = {} THEN (IF i > Len(s) THEN i ELSE Len(s) + 1) ELSE CHOOSE m \in k : \A x \in k : m <= x
(* the number at the start of the text: blanks, sign, prefix of the base,    *)
(* digits; next is what follows (1 when there is no number), stop where the  *)
(* digits were looked for                                                    *)
Scan(s, base) ==
    LET i == Span(s, 1, Space)
        j == IF At(s, i) \in {43, 45} THEN i + 1 ELSE i
        hex == base \in {0, 16} /\ At(s, j) = 48 /\ At(s, j + 1) \in {120, 88} /\ Dv(At(s, j + 2)) < 16
        b == IF base # 0 THEN base ELSE IF hex THEN 16 ELSE IF At(s, j) = 48 THEN 8 ELSE 10
        k == IF hex THEN j + 2 ELSE j
        n == Span(s, k, LAMBDA c : Dv(c) < b)
        ds == [x \in 1..n - k |-> Dv(s[k + x - 1])]
    IN [any |-> n > k, next |-> IF n > k THEN n ELSE 1, stop |-> j,
        v |-> IF n > k THEN N(At(s, i) = 45, Magn(SubSeq(ds, 1, n - k), b)) ELSE Zero]
RTrim(s) == LET k == {i \in 1..Len(s) : ~Space(s[i])} IN IF k = {} THEN <<>> ELSE Take(s, CHOOSE m \in k : \A x \in k : x <= m)

(* ---- plain decimal numbers, saturated ---- *)
Ip(e, k) == LET p == Scan(e.s, 10) IN
    IF ~p.any THEN e.err = 1 /\ e.v = Zero /\ e.end = p.stop - 1
    ELSE /\ e.v = Clamp(p.v, Lo(k), Hi(k)) /\ e.end = p.next - 1
         /\ e.err = IF Fits(p.v, k) THEN 0 ELSE 2
Ull(e) == LET p == Scan(e.s, 10) IN
    IF e.s = <<>> THEN e.err = 1 /\ e.v = Zero
    ELSE IF p.v.neg THEN e.err = 2 /\ e.v = Zero
    ELSE e.v = Clamp(p.v, Zero, Hi("x")) /\ e.end = p.next - 1 /\ e.err = IF Fits(p.v, "x") THEN 0 ELSE 2
(* ---- numbers with a unit ---- *)
Unit(c) == CASE c = 115 -> <<1>> [] c = 109 -> <<60>> [] c = 104 -> <<60, 60>> [] c = 100 -> <<60, 60, 24>>
             [] c = 119 -> <<60, 60, 24, 7>> [] c = 75 -> <<1024>> [] c = 77 -> <<1024, 1024>>
             [] c = 71 -> <<1024, 1024, 1024>> [] c = 84 -> <<1024, 1024, 1024, 1024>> [] OTHER -> <<>>
Times(v, ms) == N(v.neg, FoldLeft(LAMBDA a, m : MulAdd(a, m, 0), v.d, ms))
Ext(e, k, mem) == LET p == Scan(e.s, e.base) c == At(e.s, p.next) u == Unit(c) v == Times(p.v, u) IN
    IF mem /\ e.s = <<>> THEN e.ret = 0 /\ e.v = Zero
    ELSE IF ~p.any THEN e.ret = -1 /\ e.err = 1
    ELSE IF k = "x" /\ p.v.neg THEN e.ret = -1 /\ e.err = 2
    ELSE IF ~Fits(p.v, k) THEN e.ret = -1 /\ e.err = 2 /\ e.v = Clamp(p.v, Lo(k), Hi(k)) /\ e.end = p.next - 1
    ELSE IF u = <<>> THEN (IF Alpha(c) THEN e.ret = -1 /\ e.err = 3
                           ELSE e.ret = p.next - 1 /\ e.end = e.ret /\ e.v = p.v /\ e.err = 0)
    ELSE IF Dv(At(e.s, p.next + 1)) # 99 THEN e.ret = -1 /\ e.err = 3
    ELSE IF ~Fits(v, k) THEN e.ret = -1 /\ e.err = 2 /\ e.v = Clamp(v, Lo(k), Hi(k))
    ELSE e.ret = p.next /\ e.end = e.ret /\ e.v = v /\ e.err = 0
(* ---- numbers under constraints ---- *)
Lp(e) ==
    LET p == Scan(e.s, e.base)
        i == IF p.any THEN p.next ELSE IF e.spaces THEN Span(e.s, 1, Space) ELSE 1
        n == IF e.spaces THEN Span(e.s, i, Space) ELSE i
        sat == Clamp(p.v, Lo("l"), Hi("l"))
        c == Clamp(sat, e.min, e.max)
    IN IF ~e.spaces /\ Space(At(e.s, 1)) THEN e.ret = -1
       ELSE IF (e.cend /\ n <= Len(e.s)) \/ (~p.any /\ ~e.empty) THEN e.ret = -1
       ELSE /\ e.end = n - 1
            /\ IF e.clamp THEN /\ e.v = c
                               /\ \/ (sat # p.v /\ c = sat)
                                  \/ e.ret = IF e.range /\ c # p.v THEN -2 ELSE 0
               ELSE /\ e.v = sat
                    /\ e.ret = IF sat # p.v \/ (e.range /\ c # p.v) THEN -2 ELSE 0
(* ---- whole strings ---- *)
Whole(e, k) == LET t == RTrim(e.s) p == Scan(t, 10) ok == p.any /\ p.next = Len(t) + 1 /\ Fits(p.v, k) IN
    IF ok THEN e.ret = 0 /\ e.v = p.v /\ e.kept
    ELSE e.ret = -1 /\ e.err \in (IF p.any /\ p.next = Len(t) + 1 THEN {2} ELSE {1, 2})
(* ---- decimals and multiples: 1.5k is 1500, 1K is 1024, 1e3 is 1000; nine  *)
(* decimals are used                                                         *)
RECURSIVE Rep(_, _)
Rep(x, n) == IF n <= 0 THEN <<>> ELSE <<x>> \o Rep(x, n - 1)
Pow == [c \in {75, 77, 71, 84, 80} |-> CHOOSE n \in 1..5 : <<75, 77, 71, 84, 80>>[n] = c]
pow == [c \in {107, 109, 103, 116, 112} |-> CHOOSE n \in 1..5 : <<107, 109, 103, 116, 112>>[n] = c]
Parse(s) ==
    LET p == Scan(s, 0)
        neg == At(s, Span(s, 1, Space)) = 45
        dot == At(s, p.next) = 46
        f1 == p.next + 1
        f2 == IF dot THEN Span(s, f1, Digit) ELSE p.next
        fr == IF dot THEN SubSeq(s, f1, IF f2 - f1 > 9 THEN f1 + 8 ELSE f2 - 1) ELSE <<>>
        fd == Magn([x \in 1..Len(fr) |-> fr[x] - 48], 10)
        c == At(s, f2)
        x == Scan(Drop(s, f2), 10)
        isx == c \in {69, 101}
        big == isx /\ x.any /\ (x.v.neg \/ MLess(DecOf(18), x.v.d))
        xn == IF isx /\ x.any /\ ~big THEN FoldLeft(LAMBDA a, d : a * 10 + d, 0, x.v.d) ELSE 0
        ms == IF c \in DOMAIN Pow THEN Rep(1024, Pow[c]) ELSE IF c \in DOMAIN pow THEN Rep(1000, pow[c]) ELSE Rep(10, xn)
        last == IF isx THEN f2 + 1 + (IF x.any THEN x.next - 1 ELSE 0)
                ELSE IF c \in DOMAIN Pow \cup DOMAIN pow THEN f2 + 1 ELSE f2
        w == Times(N(FALSE, p.v.d), ms).d
        fm == Times(N(FALSE, fd), ms).d
        tot == N(neg, MAdd(w, Take(fm, IF Len(fm) > Len(fr) THEN Len(fm) - Len(fr) ELSE 0)))
    IN [free |-> isx /\ x.any /\ x.v.neg,
        ok |-> ~big /\ last = Len(s) + 1 /\ Fits(p.v, "l") /\ ~MLess(I63, tot.d), v |-> tot]
DoParse(e) == LET r == Parse(e.s) IN r.free \/ (e.bad = ~r.ok /\ (r.ok => e.v = r.v))

Step(e) ==
    CASE e.op = "strtoip" \/ e.op = "memtoip" -> Ip(e, "i")
      [] e.op = "memtollp" -> Ip(e, "l")
      [] e.op = "memtoullp" -> Ull(e)
      [] e.op = "memtollx" -> Ext(e, "l", TRUE)
      [] e.op = "memtoullx" -> Ext(e, "x", TRUE)
      [] e.op = "strtollx" -> Ext(e, "l", FALSE)
      [] e.op = "strtoullx" -> Ext(e, "x", FALSE)
      [] e.op = "strtolp" -> Lp(e)
      [] e.op = "lstri" -> Whole(e, "i")
      [] e.op = "lstrl" -> Whole(e, "l")
      [] e.op = "lstru" -> Whole(e, "u")
      [] e.op = "lstrx" -> Whole(e, "x")
      [] e.op = "parse" -> DoParse(e)
      [] OTHER -> FALSE
Init == ev = <<>>
=============================================================================
