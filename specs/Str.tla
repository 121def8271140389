-------------------------------- MODULE Str --------------------------------
(* String buffers are sequences of bytes; parsing streams are windows on a   *)
(* source of bytes.                                                          *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sb,   \* buffer -> its contents
          src,  \* the bytes the streams look at
          ps,   \* stream -> <<start, end>> (offsets in the source)
          ev
vars == <<sb, src, ps, ev>>
SbIds == 0..2
PsIds == 0..3
Init == sb = [i \in SbIds |-> <<>>] /\ src = <<>> /\ ps = [i \in PsIds |-> <<0, 0>>] /\ ev = [op |-> "init"]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Rep(b, n) == [i \in 1..n |-> b]
Sub(q, i, j) == IF Min(j, Len(q)) < i THEN <<>> ELSE SubSeq(q, i, Min(j, Len(q)))
Drop(q, n) == Sub(q, n + 1, Len(q))
Take(q, n) == Sub(q, 1, n)
SetOf(q) == {q[i] : i \in 1..Len(q)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* how many leading (trailing) bytes lie in S *)
Span(q, S) == IF \E i \in 1..Len(q) : q[i] \notin S THEN MinOf({i \in 1..Len(q) : q[i] \notin S}) - 1 ELSE Len(q)
RSpan(q, S) == IF \E i \in 1..Len(q) : q[i] \notin S THEN MinOf({j \in 0..(Len(q) - 1) : q[Len(q) - j] \notin S}) ELSE Len(q)
CSpan(q, S) == IF \E i \in 1..Len(q) : q[i] \in S THEN MinOf({i \in 1..Len(q) : q[i] \in S}) - 1 ELSE Len(q)
StartsWith(q, v) == Len(v) <= Len(q) /\ SubSeq(q, 1, Len(v)) = v
EndsWith(q, v) == Len(v) <= Len(q) /\ Sub(q, Len(q) - Len(v) + 1, Len(q)) = v
(* offsets at which v occurs in q *)
Occ(q, v) == {k \in 0..(Len(q) - Len(v)) : \A i \in 1..Len(v) : q[k + i] = v[i]}
Find(q, v) == LET o == Occ(q, v) IN IF o = {} THEN -1 ELSE MinOf(o)
Chr(q, c) == LET s == {i \in 1..Len(q) : q[i] = c} IN IF s = {} THEN -1 ELSE MinOf(s) - 1
RChr(q, c) == LET s == {j \in 0..(Len(q) - 1) : q[Len(q) - j] = c} IN IF s = {} THEN -1 ELSE Len(q) - MinOf(s) - 1
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerSeq(q) == [i \in 1..Len(q) |-> Lower(q[i])]
Less(a, b) ==
    LET d == {i \in 1..Min(Len(a), Len(b)) : a[i] # b[i]} IN
    IF d = {} THEN Len(a) < Len(b) ELSE a[MinOf(d)] < b[MinOf(d)]
Cmp(a, b) == IF a = b THEN 0 ELSE IF Less(a, b) THEN -1 ELSE 1
Space == {9, 10, 11, 12, 13, 32}

(* ---------------------------- buffers ---------------------------------- *)
(* what every operation reports: the length, the terminating zero, and the  *)
(* contents when they are short                                             *)
Rep3(e, q) == e.len = Len(q) /\ e.t /\ (Len(q) <= 48 => e.c = q)
Becomes(e, q) == sb' = [sb EXCEPT ![e.id] = q] /\ Rep3(e, q) /\ UNCHANGED <<src, ps>>
Stays(e) == Rep3(e, sb[e.id]) /\ UNCHANGED <<sb, src, ps>>
B(e) == sb[e.id]

Begin == sb' = [i \in SbIds |-> <<>>] /\ UNCHANGED <<src, ps>>
New(e) == Becomes(e, <<>>)
Add(e) == Becomes(e, B(e) \o e.v)
AddNC(e) == Becomes(e, B(e) \o Rep(e.b, e.n))
Utf8(u) ==
    IF u < 128 THEN <<u>>
    ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
    ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
    ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
AddUc(e) == Becomes(e, B(e) \o Utf8(e.u))
AddSb(e) == Becomes(e, B(e) \o sb[e.from])
Spliced(q, pos, rm, v) == Take(q, pos) \o v \o Drop(q, pos + rm)
Splice(e) == Becomes(e, Spliced(B(e), e.pos, e.rm, e.v)) /\ e.r = e.pos
SpliceNC(e) == Becomes(e, Spliced(B(e), e.pos, e.rm, Rep(e.b, e.n)))
Cut(e) == Becomes(e, CASE e.how \in {"skip", "skipupto"} -> Drop(B(e), e.n)
                       [] e.how \in {"clip", "shrinkupto"} -> Take(B(e), e.n)
                       [] e.how = "shrink" -> Take(B(e), Len(B(e)) - e.n))
LTrim(q, S) == Drop(q, Span(q, S))
RTrim(q, S) == Take(q, Len(q) - RSpan(q, S))
Trim(e) ==
    LET S == SetOf(e.set) IN
    Becomes(e, CASE e.how = "l" -> LTrim(B(e), S) [] e.how = "r" -> RTrim(B(e), S) [] OTHER -> RTrim(LTrim(B(e), S), S))
Set(e) == Becomes(e, e.v)
SetSb(e) == Becomes(e, sb[e.from])
(* making room, giving room back, undoing appends: the contents stay *)
Hold(e) == e.ok /\ Stays(e)
(* the contents leave the buffer, with a terminating zero *)
Detach(e) ==
    /\ e.dl \in {-1, Len(B(e))}
    /\ IF e.dl = -1 THEN e.v = Take(B(e), Min(Len(B(e)), CSpan(B(e), {0}))) \o <<0>> ELSE e.v = B(e) \o <<0>>
    /\ Becomes(e, <<>>)
AddF(e) == e.r = Len(e.v) /\ Add(e)
Fill(e) == e.r = e.n /\ AddNC(e)
Search(e) == e.r = (LET k == Find(Drop(B(e), e.pos), e.v) IN IF k < 0 THEN -1 ELSE k + e.pos) /\ Stays(e)
Compare(e) == e.r = Cmp(B(e), sb[e.with]) /\ Stays(e)
Window(e) == e.v = Sub(B(e), e.pos + 1, e.pos + Len(e.v)) /\ Stays(e)
(* every maximal run of refused bytes becomes one replacement byte (or none) *)
Sanitized(v, Keep(_), c) ==
    LET first == {i \in 1..Len(v) : ~Keep(v[i]) /\ (i = 1 \/ Keep(v[i - 1]))}
        P(i) == Keep(v[i]) \/ (c >= 0 /\ i \in first)
        F[i \in 0..Len(v)] == IF i = 0 THEN <<>> ELSE
            IF Keep(v[i]) THEN Append(F[i - 1], v[i]) ELSE IF P(i) THEN Append(F[i - 1], c) ELSE F[i - 1]
    IN F[Len(v)]
Sanit(e) ==
    LET Keep(x) == IF e.out THEN x \notin SetOf(e.set) ELSE x \in SetOf(e.set) IN
    Becomes(e, B(e) \o Sanitized(e.v, Keep, e.b))
(* digits in groups of three *)
Group(d, sep) ==
    IF sep < 0 THEN d ELSE
    LET F[i \in 0..Len(d)] == IF i = 0 THEN <<>> ELSE
            (IF i > 1 /\ (Len(d) - i + 1) % 3 = 0 THEN Append(F[i - 1], sep) ELSE F[i - 1]) \o <<d[i]>>
    IN F[Len(d)]
NumF(e) ==
    Becomes(e, B(e) \o (IF e.v[1] = 45 THEN <<45>> \o Group(Drop(e.v, 1), e.sep) ELSE Group(e.v, e.sep)))
(* fp: the exact decimals; nb: how many are shown. The run only asks for     *)
(* values whose nearest rounding is unambiguous.                             *)
RECURSIVE IncDigits(_)
IncDigits(d) == IF d = <<>> THEN <<49>>
                ELSE IF d[Len(d)] = 57 THEN Append(IncDigits(Take(d, Len(d) - 1)), 48)
                ELSE Append(Take(d, Len(d) - 1), d[Len(d)] + 1)
DoubleText(ip, fp, nb) ==
    LET pad == fp \o Rep(48, Max(0, nb - Len(fp)))
        kept == Take(pad, nb)
        up == Len(pad) > nb /\ pad[nb + 1] >= 53
        all == IF up THEN IncDigits(ip \o kept) ELSE ip \o kept
    IN <<Take(all, Len(all) - nb), Drop(all, Len(all) - nb)>>
DoubleF(e) ==
    LET t == DoubleText(e.ip, e.fp, e.nb) IN
    Becomes(e, B(e) \o (IF e.neg THEN <<45>> ELSE <<>>) \o Group(t[1], e.sep) \o
                (IF RSpan(t[2], {48}) = Len(t[2]) THEN <<>> ELSE <<e.dec>> \o t[2]))
(* durations: the two main units, rounded to the nearest *)
Digits(n) ==
    LET F[k \in 0..10] == IF k = 0 THEN <<n, <<>>>> ELSE
            LET p == F[k - 1] IN IF p[1] = 0 /\ p[2] # <<>> THEN p ELSE <<p[1] \div 10, <<48 + (p[1] % 10)>> \o p[2]>>
    IN F[10][2]
Duration(d0, r0) ==     \* days and milliseconds within the day
    LET H == 3600000 M == 60000 S == 1000 DAY == 86400000
        unit == IF d0 > 0 THEN H ELSE IF r0 >= H THEN M ELSE IF r0 >= M THEN S ELSE 1
        rr == ((r0 + (unit \div 2)) \div unit) * unit
        d == d0 + (rr \div DAY) r == rr % DAY
    IN IF d0 = 0 /\ r0 = 0 THEN <<48, 115>>
       ELSE IF d > 0 THEN Digits(d) \o <<100, 32>> \o Digits(r \div H) \o <<104>>
       ELSE IF r >= H THEN Digits(r \div H) \o <<104, 32>> \o Digits((r % H) \div M) \o <<109>>
       ELSE IF r >= M THEN Digits(r \div M) \o <<109, 32>> \o Digits((r % M) \div S) \o <<115>>
       ELSE IF r >= S THEN Digits(r \div S) \o <<115, 32>> \o Digits(r % S) \o <<109, 115>>
       ELSE Digits(r) \o <<109, 115>>
(* in seconds: the same without the milliseconds *)
DurationS(d0, s0) ==
    LET t == Duration(d0, s0 * 1000) IN
    IF d0 = 0 /\ s0 < 60 /\ s0 > 0 THEN Digits(s0) \o <<115>> ELSE t
Dur(e) == Becomes(e, B(e) \o (IF e.ms THEN Duration(e.d, e.r) ELSE DurationS(e.d, e.r)))
Pkcs7(e) == LET k == 8 - (Len(B(e)) % 8) IN Becomes(e, B(e) \o Rep(k, k))
(* one line of a file of which `left` bytes remain, v their beginning, nl    *)
(* the distance to the next end of line (or the end)                         *)
GetLine(e) ==
    IF e.left = 0 THEN e.r = 0 /\ Stays(e)
    ELSE LET line == IF e.nl < Len(e.v) THEN Take(e.v, e.nl) ELSE e.v \o Rep(e.v[Len(e.v)], e.nl - Len(e.v)) IN
         e.r = Len(line) + 1 /\ Becomes(e, B(e) \o line \o <<10>>)
FRead(e) ==
    /\ e.r = Min(e.nm, Len(e.v) \div e.size)
    /\ Becomes(e, B(e) \o Take(e.v, e.r * e.size))
(* one read takes what is there, as long as there is room *)
Read(e) ==
    /\ e.r = Len(e.v)
    /\ Becomes(e, B(e) \o e.v)
Write(e) ==
    LET all == (IF e.append THEN e.v ELSE <<>>) \o B(e) IN
    e.r >= 0 /\ e.size = Len(all) /\ e.head = Take(all, 64) /\ Stays(e)

(* ---------------------------- streams ---------------------------------- *)
Q(e) == Sub(src, ps[e.id][1] + 1, ps[e.id][2])
PsTo(e, a, b) == e.ps = <<a, b>> /\ ps' = [ps EXCEPT ![e.id] = <<a, b>>] /\ UNCHANGED <<sb, src>>
PsSame(e) == PsTo(e, ps[e.id][1], ps[e.id][2])
Fwd(e, n) == PsTo(e, ps[e.id][1] + n, ps[e.id][2])
Bwd(e, n) == PsTo(e, ps[e.id][1], ps[e.id][2] - n)
Clipped(e, n) == PsTo(e, ps[e.id][1], ps[e.id][1] + n)
L(e) == ps[e.id][2] - ps[e.id][1]
Fail(e) == e.r = -1 /\ PsSame(e)
HeadOf(e, n) == <<ps[e.id][1], ps[e.id][1] + n>>   \* the first n bytes

Src(v) == src' = v /\ ps' = [i \in PsIds |-> <<0, Len(v)>>] /\ UNCHANGED sb
PNew(e) == PsTo(e, 0, Len(src))
PCut(e) ==
    IF e.n > L(e) \/ e.n < 0 THEN Fail(e)
    ELSE e.r = 0 /\ (CASE e.how = "skip" -> Fwd(e, e.n) [] e.how = "shrink" -> Bwd(e, e.n) [] e.how = "clip" -> Clipped(e, e.n))
PAt(e) ==
    IF e.pos < ps[e.id][1] \/ e.pos > ps[e.id][2] THEN Fail(e)
    ELSE /\ e.r = 0
         /\ LET n == e.pos - ps[e.id][1] IN
            CASE e.how = "skip" -> Fwd(e, n)
              [] e.how = "clip" -> Clipped(e, n)
              [] e.how = "get" -> Fwd(e, n) /\ e.o = HeadOf(e, n)
              [] OTHER -> PsSame(e) /\ e.o = <<e.pos, ps[e.id][2]>>
PChr(e) ==
    LET last == e.how \in {"clipatlast", "clipafterlast", "skipafterlast", "getlast", "getlastskip"}
        k == IF e.how = "skipc" THEN (IF L(e) > 0 /\ Q(e)[1] = e.b THEN 0 ELSE -1)
             ELSE IF e.how = "shrinkc" THEN (IF L(e) > 0 /\ Q(e)[L(e)] = e.b THEN 0 ELSE -1)
             ELSE IF last THEN RChr(Q(e), e.b) ELSE Chr(Q(e), e.b)
    IN IF k < 0 THEN Fail(e)
       ELSE /\ e.r = 0
            /\ CASE e.how \in {"clipat", "clipatlast"} -> Clipped(e, k)
                 [] e.how \in {"clipafter", "clipafterlast"} -> Clipped(e, k + 1)
                 [] e.how = "skipupto" -> Fwd(e, k)
                 [] e.how \in {"skipafter", "skipafterlast"} -> Fwd(e, k + 1)
                 [] e.how \in {"get", "getlast"} -> Fwd(e, k) /\ e.o = HeadOf(e, k)
                 [] e.how \in {"getskip", "getlastskip"} -> Fwd(e, k + 1) /\ e.o = HeadOf(e, k)
                 [] e.how = "skipc" -> Fwd(e, 1)
                 [] e.how = "shrinkc" -> Bwd(e, 1)
PData(e) ==
    CASE e.how \in {"starts", "ends", "equal", "caseequal"} ->
             /\ PsSame(e)
             /\ (e.r # 0) = (CASE e.how = "starts" -> StartsWith(Q(e), e.v)
                               [] e.how = "ends" -> EndsWith(Q(e), e.v)
                               [] e.how = "equal" -> Q(e) = e.v
                               [] OTHER -> LowerSeq(Q(e)) = LowerSeq(e.v))
      [] e.how = "skip" -> IF StartsWith(Q(e), e.v) THEN e.r = 0 /\ Fwd(e, Len(e.v)) ELSE Fail(e)
      [] e.how = "skipcase" -> IF StartsWith(LowerSeq(Q(e)), LowerSeq(e.v)) THEN e.r = 0 /\ Fwd(e, Len(e.v)) ELSE Fail(e)
      [] OTHER -> LET k == Find(Q(e), e.v) IN
            IF k < 0 THEN Fail(e)
            ELSE e.r = 0 /\ (CASE e.how = "upto" -> Fwd(e, k)
                               [] e.how = "after" -> Fwd(e, k + Len(e.v))
                               [] e.how = "get" -> Fwd(e, k) /\ e.o = HeadOf(e, k)
                               [] OTHER -> Fwd(e, k + Len(e.v)) /\ e.o = HeadOf(e, k))
PGet(e) == IF e.n > L(e) \/ e.n < 0 THEN Fail(e) ELSE e.r = 0 /\ Fwd(e, e.n) /\ e.o = HeadOf(e, e.n)
PSpan(e) ==
    LET S == SetOf(e.set) n == Span(Q(e), S) c == CSpan(Q(e), S) IN
    CASE e.how = "skip" -> e.r = n /\ Fwd(e, n)
      [] e.how = "cskip" -> e.r = c /\ Fwd(e, c)
      [] e.how = "get" -> Fwd(e, n) /\ e.o = HeadOf(e, n)
      [] e.how = "cget" -> Fwd(e, c) /\ e.o = HeadOf(e, c)
      [] e.how = "tok" -> Fwd(e, c + Span(Drop(Q(e), c), S)) /\ e.o = HeadOf(e, c)
      [] OTHER -> PsSame(e) /\ (e.r # 0) = (c < L(e))
PTrim(e) ==
    LET a == Span(Q(e), Space) b == IF e.how = "r" THEN RSpan(Q(e), Space) ELSE RSpan(Drop(Q(e), a), Space) IN
    CASE e.how = "l" -> e.r = a /\ Fwd(e, a)
      [] e.how = "r" -> e.r = b /\ Bwd(e, b)
      [] OTHER -> e.r = a + b /\ PsTo(e, ps[e.id][1] + a, ps[e.id][2] - b)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
PC(e) ==
    CASE e.how = "get" -> IF L(e) = 0 THEN Fail(e) ELSE e.r = Q(e)[1] /\ Fwd(e, 1)
      [] e.how = "peek" -> PsSame(e) /\ e.r = (IF L(e) = 0 THEN -1 ELSE Q(e)[1])
      [] e.how = "hex" -> IF L(e) = 0 THEN Fail(e) ELSE e.r = HexVal(Q(e)[1]) /\ Fwd(e, 1)
      [] OTHER -> IF L(e) < 2 THEN Fail(e)
                  ELSE LET a == HexVal(Q(e)[1]) b == HexVal(Q(e)[2]) IN
                       e.r = (IF a < 0 \/ b < 0 THEN -1 ELSE 16 * a + b) /\ Fwd(e, 2)
PHex(e) ==
    IF e.n > 4 \/ e.n > L(e) \/ (\E i \in 1..e.n : HexVal(Q(e)[i]) < 0) THEN Fail(e) /\ e.v = -1
    ELSE LET F[i \in 0..4] == IF i = 0 THEN 0 ELSE IF i > e.n THEN F[i - 1] ELSE 16 * F[i - 1] + HexVal(Q(e)[i]) IN
         e.r = 0 /\ e.v = F[4] /\ Fwd(e, e.n)
PGets(e) == LET k == Chr(Q(e), 0) IN IF k < 0 THEN Fail(e) ELSE e.r = k /\ Fwd(e, k + 1)
PCmp(e) ==
    LET o == Sub(src, ps[e.with][1] + 1, ps[e.with][2]) IN e.r = Cmp(Q(e), o) /\ e.eq = (Q(e) = o) /\ PsSame(e)
PLen(e) == e.r = L(e) /\ e.has = (e.n >= 0 /\ e.n <= L(e)) /\ e.done = (L(e) = 0) /\ PsSame(e)
(* a block is taken with its padding, which must be there *)
RoundUp(n, a) == ((n + a - 1) \div a) * a
PBlock(e) ==
    IF RoundUp(e.n, e.al) <= L(e) THEN e.r = 0 /\ Fwd(e, RoundUp(e.n, e.al)) ELSE Fail(e)
(* scattering the stream on vectors *)
Scatter(ns, len) ==
    LET F[i \in 0..Len(ns)] == IF i = 0 THEN <<len, <<>>>> ELSE
            LET p == F[i - 1] IN IF p[1] = 0 THEN p ELSE <<p[1] - Min(ns[i], p[1]), Append(p[2], Min(ns[i], p[1]))>>
    IN F[Len(ns)]
PCopyV(e) ==
    LET s == Scatter(e.ns, L(e)) n == L(e) - s[1] IN
    /\ e.got = s[2] /\ e.v = Take(Q(e), n) /\ Fwd(e, n)
    /\ e.trunc = (e.fl # 2 /\ s[1] > 0)
    /\ e.r = IF e.fl = 1 THEN L(e) ELSE n
(* splitting: the pieces between separators *)
Splits(q, S, skip) ==
    LET F[i \in 0..Len(q)] == IF i = 0 THEN <<<<>>, <<>>>> ELSE     \* <<pieces, current>>
            LET p == F[i - 1] IN
            IF q[i] \in S THEN <<IF skip /\ p[2] = <<>> THEN p[1] ELSE Append(p[1], p[2]), <<>>>>
            ELSE <<p[1], Append(p[2], q[i])>>
        z == F[Len(q)]
    IN IF z[2] = <<>> THEN z[1] ELSE Append(z[1], z[2])
(* an escape followed by a separator or an escape stands for that byte; any *)
(* other escape stands for itself                                           *)
SplitsEsc(q, S, esc, skip) ==
    LET SE == IF esc = 0 THEN S ELSE S \cup {esc}
        F[i \in 0..Len(q)] == IF i = 0 THEN [p |-> <<>>, c |-> <<>>, lit |-> FALSE] ELSE
            LET s == F[i - 1] IN
            IF s.lit THEN [s EXCEPT !.c = Append(@, q[i]), !.lit = FALSE]
            ELSE IF q[i] \in S THEN [s EXCEPT !.p = IF skip /\ s.c = <<>> THEN @ ELSE Append(@, s.c), !.c = <<>>]
            ELSE IF esc # 0 /\ q[i] = esc /\ i < Len(q) /\ q[i + 1] \in SE THEN [s EXCEPT !.lit = TRUE]
            ELSE [s EXCEPT !.c = Append(@, q[i])]
        z == F[Len(q)]
    IN IF skip /\ z.c = <<>> THEN z.p ELSE Append(z.p, z.c)
PSplit(e) ==
    LET S == SetOf(e.set) skip == e.skip = 1 IN
    /\ PsSame(e)
    /\ e.v = IF e.esc < 0 THEN Splits(Q(e), S, skip) ELSE SplitsEsc(Q(e), S, e.esc, skip)
(* one CSV record: the automaton of its fields *)
CsvStep(s, c, sep, quote) ==
    CASE s.st = "start" ->
            IF c = quote THEN [s EXCEPT !.st = "quoted"]
            ELSE IF c = sep THEN [s EXCEPT !.f = Append(@, s.c), !.c = <<>>]
            ELSE IF c = 10 THEN [s EXCEPT !.f = Append(@, s.c), !.st = "end"]
            ELSE IF c = 13 THEN [s EXCEPT !.f = Append(@, s.c), !.st = "cr"]
            ELSE [s EXCEPT !.st = "plain", !.c = Append(@, c)]
      [] s.st = "plain" ->
            IF c = sep THEN [s EXCEPT !.f = Append(@, s.c), !.c = <<>>, !.st = "start"]
            ELSE IF c = 10 THEN [s EXCEPT !.f = Append(@, s.c), !.st = "end"]
            ELSE IF c = 13 THEN [s EXCEPT !.f = Append(@, s.c), !.st = "cr"]
            ELSE [s EXCEPT !.c = Append(@, c)]
      [] s.st = "quoted" -> IF c = quote THEN [s EXCEPT !.st = "unquoted"] ELSE [s EXCEPT !.c = Append(@, c)]
      [] s.st = "unquoted" ->       \* a quote inside a quoted field
            IF c = quote THEN [s EXCEPT !.st = "quoted", !.c = Append(@, c)]
            ELSE IF c = sep THEN [s EXCEPT !.f = Append(@, s.c), !.c = <<>>, !.st = "start"]
            ELSE IF c = 10 THEN [s EXCEPT !.f = Append(@, s.c), !.st = "end"]
            ELSE IF c = 13 THEN [s EXCEPT !.f = Append(@, s.c), !.st = "cr"]
            ELSE [s EXCEPT !.f = Append(@, s.c), !.st = "bad"]
      [] s.st = "cr" -> IF c = 10 THEN [s EXCEPT !.st = "end"] ELSE [s EXCEPT !.st = "badcr"]
      [] OTHER -> s
Csv(q, sep, quote) ==
    LET F[i \in 0..Len(q)] == IF i = 0 THEN [st |-> "start", f |-> <<>>, c |-> <<>>, n |-> 0] ELSE
            LET p == F[i - 1] IN
            IF p.st \in {"end", "bad", "badcr"} THEN p
            ELSE [CsvStep(p, q[i], sep, quote) EXCEPT !.n = i]
    IN F[Len(q)]
PCsv(e) ==
    LET z == Csv(Q(e), e.sep, e.quote) a == ps[e.id][1] IN
    IF L(e) = 0 THEN e.r = 0 /\ e.v = <<>> /\ PsSame(e)
    ELSE CASE z.st = "end" ->
                 /\ e.r = 0 /\ e.v = z.f /\ Fwd(e, z.n)
                 /\ e.line = <<a, a + z.n - (IF z.n >= 2 /\ Q(e)[z.n - 1] = 13 THEN 2 ELSE 1)>>
           [] z.st \in {"start", "plain", "unquoted"} ->
                 e.r = 0 /\ e.v = Append(z.f, z.c) /\ Fwd(e, L(e)) /\ e.line = <<a, a + L(e)>>
           [] OTHER -> \* no valid record: an error, and a stream that lies where it was met
                 /\ e.r < 0 /\ e.ps[2] = ps[e.id][2] /\ e.ps[1] \in ps[e.id][1]..ps[e.id][2]
                 /\ ps' = [ps EXCEPT ![e.id] = e.ps] /\ UNCHANGED <<sb, src>>
=============================================================================
