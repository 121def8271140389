-------------------------------- MODULE Lstr --------------------------------
(* Strings with a length. A string is a view on a piece of memory (a cell)   *)
(* that it owns or not; copies have a cell of their own. The second part     *)
(* gives the meaning of the comparisons, distances and patterns, the third   *)
(* that of the helpers on C strings.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
VARIABLES cells, regs, ev
vars == <<cells, regs, ev>>
NR == 4
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN (IF n < 0 THEN 0 ELSE n) ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Lo(c) == IF c \in 65..90 THEN c + 32 ELSE c
Up(c) == IF c \in 97..122 THEN c - 32 ELSE c
Map(f(_), s) == SubSeq([i \in 1..Len(s) |-> f(s[i])], 1, Len(s))
Space(c) == c = 32 \/ c \in 9..13
HexV(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexEnc(s) == SubSeq([i \in 1..2 * Len(s) |-> LET b == s[(i + 1) \div 2] IN HexD(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)], 1, 2 * Len(s))
HexOk(s) == Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : HexV(s[i]) >= 0
HexDec(s) == SubSeq([i \in 1..Len(s) \div 2 |-> 16 * HexV(s[2 * i - 1]) + HexV(s[2 * i])], 1, Len(s) \div 2)

(* UTF-8: length of the character at i, 0 when there is none *)
U8Need(b) == IF b < 128 THEN 1 ELSE IF b < 192 THEN 0 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE IF b < 248 THEN 4 ELSE 0
U8Len(s, i) == LET n == U8Need(s[i]) IN
    IF n = 0 \/ i + n - 1 > Len(s) THEN 0 ELSE IF \A k \in 1..(n - 1) : s[i + k] \in 128..191 THEN n ELSE 0
(* the characters, as sequences of bytes, up to the first invalid one *)
RECURSIVE U8Chars_(_, _, _)
U8Chars_(s, i, acc) == IF i > Len(s) THEN acc
    ELSE LET n == U8Len(s, i) IN IF n = 0 THEN acc ELSE U8Chars_(s, i + n, Append(acc, SubSeq(s, i, i + n - 1)))
U8Chars(s) == U8Chars_(s, 1, <<>>)
Cat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
U8Valid(s) == Len(Cat(U8Chars(s))) = Len(s)

(* ---- strings ---- *)
Nul == [null |-> TRUE, cell |-> 1, off |-> 0, len |-> 0, pool |-> "S"]
Val(x) == IF x.null THEN <<>> ELSE SubSeq(cells[x.cell], x.off + 1, x.off + x.len)
V(r) == Val(regs[r])
Own(n, c, p) == [null |-> FALSE, cell |-> c, off |-> 0, len |-> n, pool |-> p]
View(x, o, n) == [x EXCEPT !.off = x.off + o, !.len = n, !.pool = "S"]

Init == cells = <<<<>>>> /\ regs = [i \in 0..NR - 1 |-> Nul] /\ ev = <<>>
Begin == cells' = <<<<>>>> /\ regs' = [i \in 0..NR - 1 |-> Nul]
(* registers whose memory was released are forgotten *)
Lose(q, e) == [i \in 0..NR - 1 |-> IF \E k \in 1..Len(e.lost) : e.lost[k] = i THEN Nul ELSE q[i]]
(* only views on what the destination owned may be lost *)
LostOk(e) == \A k \in 1..Len(e.lost) : LET i == e.lost[k] IN
             i # e.r /\ ~regs[i].null /\ regs[e.r].pool # "S" /\ regs[i].cell = regs[e.r].cell
(* what the driver shows of the registers is what they should hold *)
Shown(e) == \A i \in 0..NR - 1 : LET x == regs'[i] s == e.regs[i + 1] IN
            /\ s.null = x.null /\ s.len = x.len
            /\ s.z
            /\ s.v = (IF x.null THEN <<>> ELSE SubSeq(cells'[x.cell], x.off + 1, x.off + x.len))
            /\ (x.null \/ x.pool = "?" \/ s.pool = x.pool)
Done(e, c, q) == LostOk(e) /\ cells' = c /\ regs' = q /\ Shown(e)
Fresh(e, v, p) == Done(e, Append(cells, v), [Lose(regs, e) EXCEPT ![e.r] = Own(Len(v), Len(cells) + 1, p)])
Become(e, x) == Done(e, cells, [Lose(regs, e) EXCEPT ![e.r] = x])

(* the source as the operation finds it *)
Src(e, a) == Lose(regs, e)[a]
SV(e, a) == Val(Src(e, a))

Lit(e) == Fresh(e, e.v, "S")
Null(e) == Become(e, Nul)
Sub(e) == Become(e, View(regs[e.a], e.off, e.n)) /\ e.off + e.n <= regs[e.a].len
Dup(e) == IF Src(e, e.a).null THEN Become(e, Nul) ELSE Fresh(e, SV(e, e.a), e.p)
UpTo0(v) == LET k == {i \in 1..Len(v) : v[i] = 0} IN IF k = {} THEN v ELSE Take(v, Min(k) - 1)
DupZ(e) == Fresh(e, UpTo0(SV(e, e.a)), e.p)
DupC(e) == Become(e, [Src(e, e.a) EXCEPT !.pool = "S"])
Rev(e) == IF Src(e, e.a).null THEN Become(e, Nul) ELSE Fresh(e, Reverse(SV(e, e.a)), e.p)
URev(e) == IF Src(e, e.a).null \/ ~U8Valid(SV(e, e.a)) THEN Become(e, Nul)
           ELSE Fresh(e, Cat(Reverse(U8Chars(SV(e, e.a)))), e.p)
TCase(e) == IF Src(e, e.a).null THEN Become(e, Nul)
            ELSE Fresh(e, IF e.k = 0 THEN Map(Lo, SV(e, e.a)) ELSE IF e.k = 1 THEN Map(Up, SV(e, e.a)) ELSE Reverse(SV(e, e.a)), "T")
LSp(v) == LET k == {i \in 1..Len(v) : ~Space(v[i])} IN IF k = {} THEN Len(v) ELSE Min(k) - 1
RSp(v) == LET k == {i \in 1..Len(v) : ~Space(v[i])} IN IF k = {} THEN 0 ELSE Max(k)
Trim(e) == LET x == Src(e, e.a) v == SV(e, e.a) l == IF e.k = 1 THEN 0 ELSE LSp(v) r == IF e.k = 0 THEN Len(v) ELSE RSp(v) IN
           IF x.null THEN Become(e, Nul) ELSE Become(e, View(x, l, Mx(r - l, 0)))
Trunc(e) == LET x == Src(e, e.a) v == SV(e, e.a) c == U8Chars(v) IN
            IF x.null THEN Become(e, Nul)
            ELSE IF e.k <= Len(c) THEN Become(e, View(x, 0, Len(Cat(Take(c, e.k)))))
            ELSE IF Len(Cat(c)) < Len(v) THEN Become(e, Nul)
            ELSE Become(e, View(x, 0, Len(v)))
Pkcs7(e) == LET x == Src(e, e.a) v == SV(e, e.a) IN
            IF Len(v) = 0 \/ Len(v) % 8 # 0 \/ v[Len(v)] \notin 1..8 THEN Become(e, Nul)
            ELSE Become(e, View(x, 0, Len(v) - v[Len(v)]))
DoHexEnc(e) == Fresh(e, HexEnc(SV(e, e.a)), "?")
DoHexDec(e) == IF HexOk(SV(e, e.a)) THEN Fresh(e, HexDec(SV(e, e.a)), "?") ELSE Become(e, Nul)
DoHHexDec(e) == LET v == SelectSeq(SV(e, e.a), LAMBDA c : HexV(c) >= 0) IN
                IF HexOk(v) THEN Fresh(e, HexDec(v), "?") ELSE Become(e, Nul)
(* a copy may be made from what the destination holds *)
Copy(e) == LET x == regs[e.a] IN
           IF x.null THEN Become(e, Nul)
           ELSE IF e.p = "S" THEN (IF Src(e, e.a).null THEN Become(e, Nul) ELSE Become(e, [x EXCEPT !.pool = "S"]))
           ELSE Fresh(e, Val(x), e.p)
DoCat(e) == LET all == IF e.three THEN {e.a, e.b, e.c} ELSE {e.a, e.b} IN
            IF \A i \in all : regs[i].null THEN Become(e, Nul)
            ELSE Fresh(e, V(e.a) \o V(e.b) \o (IF e.three THEN V(e.c) ELSE <<>>), e.p)
Persist(e) == LET x == regs[e.r] IN
              IF x.pool = "L" \/ x.pool = e.p THEN Become(e, x)
              ELSE IF x.pool = "?" THEN Become(e, x) \/ Fresh(e, Val(x), e.p)
              ELSE Fresh(e, Val(x), e.p)
Transfer(e) == LET x == Src(e, e.a) IN
               Done(e, cells, [Lose(regs, e) EXCEPT ![e.r] = x, ![e.a] = [x EXCEPT !.pool = "S"]])
TransferSb(e) == Fresh(e, e.v, IF e.v = <<>> THEN "?" ELSE e.p) /\ e.fresh
(* what is changed in place is changed for every view on it *)
Key(i) == <<1, 2, 4>>[((i - 1) % 3) + 1]
Bit(b, k) == (b \div k) % 2
Xor(b, k) == IF Bit(b, k) = 1 THEN b - k ELSE b + k
InPlace(e) ==
    LET x == regs[e.r] v == Val(x)
        w == CASE e.k = 0 -> Map(Lo, v) [] e.k = 1 -> Map(Up, v) [] e.k = 2 -> Reverse(v)
               [] e.k = 3 -> SubSeq([i \in 1..Len(v) |-> Xor(v[i], Key(i))], 1, Len(v)) [] OTHER -> v
        c == cells[x.cell]
    IN IF x.null THEN Become(e, x)
       ELSE Done(e, [cells EXCEPT ![x.cell] = Take(c, x.off) \o w \o Drop(c, x.off + x.len)], regs)
File(e) ==
    CASE e.how = 3 -> e.ret = -2 /\ Done(e, cells, regs)
      [] e.how = 4 -> e.ret = -1 /\ Done(e, cells, regs)
      [] e.how = 2 \/ e.v = <<>> ->
            IF e.prot = 2 THEN e.ret = -4 /\ Done(e, cells, regs)
            ELSE e.ret = 0 /\ Fresh(e, e.v, IF e.v = <<>> THEN "?" ELSE "L")
      [] OTHER -> e.ret = 0 /\ Fresh(e, e.v, "M")

(* ---- comparisons ---- *)
Cmp(a, b) == LET m == Mn(Len(a), Len(b)) k == SelectSeq([i \in 1..m |-> i], LAMBDA i : a[i] # b[i]) IN
             IF k # <<>> THEN (IF a[k[1]] < b[k[1]] THEN -1 ELSE 1)
             ELSE IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE 0
Starts(a, b) == Take(a, Len(b)) = b
Ends(a, b) == Len(a) >= Len(b) /\ Drop(a, Len(a) - Len(b)) = b
Within(a, b) == \E i \in 0..Len(a) - Len(b) : SubSeq(a, i + 1, i + Len(b)) = b
(* number of additions, deletions, substitutions and swaps of neighbours,    *)
(* row by row                                                                *)
Row0(b) == SubSeq([j \in 1..Len(b) + 1 |-> j - 1], 1, Len(b) + 1)
NextRow(a, b, i, p, pp) ==
    FoldLeft(LAMBDA row, j :
        LET c == IF a[i] = b[j] THEN 0 ELSE 1
            d == Mn(Mn(p[j + 1] + 1, row[j] + 1), p[j] + c)
            t == IF i > 1 /\ j > 1 /\ a[i] = b[j - 1] /\ a[i - 1] = b[j] THEN Mn(d, pp[j - 1] + c) ELSE d
        IN Append(row, t), <<i>>, [j \in 1..Len(b) |-> j])
Rows(a, b) == FoldLeft(LAMBDA w, i : <<NextRow(a, b, i, w[1], w[2]), w[1]>>, <<Row0(b), Row0(b)>>, [i \in 1..Len(a) |-> i])
Dist(a, b) == Rows(a, b)[1][Len(b) + 1]
Ascii(v) == \A i \in 1..Len(v) : v[i] \in 32..126
(* a character above U+FFFF, which has no collation *)
Beyond(v) == \E i \in 1..Len(U8Chars(v)) : LET c == U8Chars(v)[i] IN Len(c) = 4 /\ (c[1] \in 241..243 \/ (c[1] = 240 /\ c[2] >= 144))
Compare(e) ==
    LET a == V(e.a) b == V(e.b) la == Map(Lo, a) lb == Map(Lo, b) d == Dist(a, b) c == IF b = <<>> THEN 97 ELSE b[1] IN
    /\ e.c = Cmp(a, b) /\ e.cp = e.c
    /\ e.ic = Cmp(la, lb) /\ e.icp = e.ic
    /\ e.eq = (a = b /\ regs[e.a].null = regs[e.b].null)
    /\ e.ieq = (la = lb)
    /\ e.sw = Starts(a, b) /\ e.ew = Ends(a, b) /\ e.isw = Starts(la, lb) /\ e.iew = Ends(la, lb)
    /\ regs[e.a].null \/ e.in = Within(a, b)
    /\ e.swc = (a # <<>> /\ a[1] = c) /\ e.ewc = (a # <<>> /\ a[Len(a)] = c)
    /\ \A k \in 1..Len(e.dl) : e.dl[k] = IF k = 1 \/ d <= k - 2 THEN d ELSE -1
    /\ (Ascii(a) /\ Ascii(b)) => e.uew = Ends(a, b) /\ e.uiew = Ends(la, lb)
    /\ (Beyond(a) \/ Beyond(b)) => ~e.uew /\ ~e.uiew
    /\ UNCHANGED <<cells, regs>>
About(e) == LET a == V(e.a) IN
    /\ e.ct = (\A i \in 1..Len(a) : \E k \in 1..Len(e.set) : e.set[k] = a[i])
    /\ e.ul = IF U8Valid(a) THEN Len(U8Chars(a)) ELSE -1
    /\ UNCHANGED <<cells, regs>>

(* ---- patterns: % any characters, _ one, \ takes the next one as it is ---- *)
(* how a character collates: letters without case, e with an accent is e,    *)
(* the ligature is the two letters                                           *)
Coll(c) == IF c = <<195, 169>> \/ c = <<195, 137>> THEN <<69>>
           ELSE IF c = <<197, 147>> \/ c = <<197, 146>> THEN <<79, 69>>
           ELSE Map(Up, c)
RECURSIVE Tokens(_)
Tokens(q) == IF q = <<>> THEN <<>>
             ELSE IF q[1] = <<37>> THEN <<[k |-> "any", s |-> <<>>]>> \o Tokens(Tail(q))
             ELSE IF q[1] = <<95>> THEN <<[k |-> "one", s |-> <<>>]>> \o Tokens(Tail(q))
             ELSE LET esc == q[1] = <<92>> /\ Len(q) > 1 IN
                  <<[k |-> "lit", s |-> Coll(IF esc THEN q[2] ELSE q[1])]>> \o Tokens(Drop(q, IF esc THEN 2 ELSE 1))
(* neighbouring literals make one *)
RECURSIVE Runs(_)
Runs(t) == IF Len(t) < 2 THEN t
           ELSE IF t[1].k = "lit" /\ t[2].k = "lit" THEN Runs(<<[k |-> "lit", s |-> t[1].s \o t[2].s]>> \o Drop(t, 2))
           ELSE <<t[1]>> \o Runs(Tail(t))
RECURSIVE Matches(_, _)
Matches(t, x) ==
    IF t = <<>> THEN x = <<>>
    ELSE IF t[1].k = "any" THEN \E n \in 0..Len(x) : Matches(Tail(t), Drop(x, n))
    ELSE IF t[1].k = "one" THEN x # <<>> /\ Matches(Tail(t), Tail(x))
    ELSE \E n \in 0..Len(x) : Cat(Take(x, n)) = t[1].s /\ Matches(Tail(t), Drop(x, n))
LikeIs(a, p) == Matches(Runs(Tokens(U8Chars(p))), Map(Coll, U8Chars(a)))
Like(e) == e.m = LikeIs(V(e.a), V(e.b)) /\ UNCHANGED <<cells, regs>>

(* ---- C strings ---- *)
FirstNot(v, P(_)) == LET k == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : ~P(v[i])) IN IF k = <<>> THEN Len(v) ELSE k[1] - 1
Find(a, b) == LET k == {i \in 0..Len(a) - Len(b) : SubSeq(a, i + 1, i + Len(b)) = b} IN IF k = {} THEN -1 ELSE Min(k)
FindWord(s, t, sep) ==
    IF t = <<>> THEN Within(s, <<sep, sep>>)
    ELSE \E i \in 0..Len(s) - Len(t) : /\ SubSeq(s, i + 1, i + Len(t)) = t
                                       /\ i = 0 \/ s[i] = sep
                                       /\ i + Len(t) = Len(s) \/ s[i + Len(t) + 1] = sep
RECURSIVE Inc(_, _, _)
Inc(v, n, hex) == IF n = 0 THEN <<1, v>>
    ELSE LET c == v[n] IN
    IF c \in 48..56 THEN <<0, [v EXCEPT ![n] = c + 1]>>
    ELSE IF c = 57 THEN (IF hex THEN <<0, [v EXCEPT ![n] = 65]>> ELSE Inc([v EXCEPT ![n] = 48], n - 1, hex))
    ELSE IF hex /\ (c \in 65..69 \/ c \in 97..101) THEN <<0, [v EXCEPT ![n] = c + 1]>>
    ELSE IF hex /\ c \in {70, 102} THEN Inc([v EXCEPT ![n] = 48], n - 1, hex)
    ELSE <<1, v>>
CStr(e) ==
    LET s == e.s t == e.t ls == Map(Lo, s) lt == Map(Lo, t) n == IF e.n < 0 THEN Len(s) ELSE e.n IN
    /\ e.sk = FirstNot(s, Space) /\ e.ns = FirstNot(s, LAMBDA c : ~Space(c))
    /\ e.sb = FirstNot(s, LAMBDA c : c \in {9, 32})
    /\ e.st = (IF Starts(s, t) THEN Len(t) ELSE -1) /\ e.st0 = Starts(s, t)
    /\ e.ist = (IF Starts(ls, lt) THEN Len(t) ELSE -1)
    /\ e.ss = Find(ls, lt)
    /\ e.find = FindWord(s, t, e.sep)
    /\ e.rt = RSp(s) /\ e.rtl = RSp(s)
    /\ LET z == Inc(s, n, FALSE) IN e.bi = z[1] /\ e.biv = z[2]
    /\ LET z == Inc(s, n, TRUE) IN e.bh = z[1] /\ e.bhv = z[2]
    /\ e.rp = Len(SelectSeq(s, LAMBDA c : c = e.sep))
    /\ e.rpv = Map(LAMBDA c : IF c = e.sep THEN 95 ELSE c, s)
    /\ UNCHANGED <<cells, regs>>
Cut(v, n) == IF n <= 0 THEN <<>> ELSE Take(v, n - 1)
PStr(e) ==
    LET one == Cut(e.s, e.size) off == Mn(2, e.size) room == Mn(e.size - off, e.n + 1) IN
    /\ e.cp = Len(e.s) /\ e.cpv = one
    /\ e.ct = Len(one) + Len(e.t) /\ e.ctv = Cut(one \o e.t, e.size)
    /\ e.cl = Mn(Len(e.t), e.n) /\ e.clv = Cut(Take(e.t, e.n), e.size)
    /\ IF room <= 0 THEN e.rd = -1
       ELSE e.rd = room - 1 /\ Len(e.rdv) = room - 1 /\ \A i \in 1..Len(e.rdv) : e.rdv[i] \in 48..57 \cup 65..70
    /\ e.size > 0 => e.ra = e.size - 1 /\ Len(e.rav) = e.size - 1 /\ \A i \in 1..Len(e.rav) : e.rav[i] \in 120..122
    /\ UNCHANGED <<cells, regs>>
=============================================================================
