------------------------------- MODULE Date --------------------------------
(* Dates: civil calendar, zones given by rules, roundings, formats, parsers, durations and pairs of seconds and microseconds. *)
(* A time is a pair <<days since 1970-01-01, second of the day>>; texts are sequences of bytes.                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLES z, now, ev

Day == 86400
Norm(d, s) == <<d + (s \div Day), s % Day>>
Plus(t, s) == Norm(t[1], t[2] + s)
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Leq(a, b) == a = b \/ Lt(a, b)

(* ---- calendar ---- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
CumDays == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
YDays(y) == ((y - 1) * 365) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
YDay(y, m, d) == CumDays[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
Epoch == YDays(1970)
Days(y, m, d) == YDays(y) - Epoch + YDay(y, m, d)
YearOf(n) == LET g == 1970 + (n \div 366)  h == 1970 + (n \div 365) IN
    CHOOSE y \in ((IF g < h THEN g ELSE h) - 1)..((IF g < h THEN h ELSE g) + 1) : Days(y, 1, 1) <= n /\ n < Days(y + 1, 1, 1)
MonthOf(y, n) == CHOOSE m \in 1..12 : Days(y, m, 1) <= n /\ n < Days(y, m, 1) + MDays(y, m)
Civil(n) == LET y == YearOf(n) IN LET m == MonthOf(y, n) IN <<y, m, n - Days(y, m, 1) + 1>>
WDay(n) == (n + 4) % 7
MDayValid(d, m, y) == d >= 1 /\ d <= MDays(y, m)

(* ---- zones ---- *)
Zones == <<[std |-> 0, dst |-> 0, has |-> FALSE, b |-> <<>>, e |-> <<>>],
           [std |-> 3600, dst |-> 7200, has |-> TRUE, b |-> <<3, 5, 0, 7200>>, e |-> <<10, 5, 0, 10800>>],
           [std |-> -18000, dst |-> -14400, has |-> TRUE, b |-> <<3, 2, 0, 7200>>, e |-> <<11, 1, 0, 7200>>],
           [std |-> 19800, dst |-> 0, has |-> FALSE, b |-> <<>>, e |-> <<>>],
           [std |-> 43200, dst |-> 46800, has |-> TRUE, b |-> <<9, 5, 0, 7200>>, e |-> <<4, 1, 0, 10800>>],
           [std |-> 37800, dst |-> 39600, has |-> TRUE, b |-> <<10, 1, 0, 7200>>, e |-> <<4, 1, 0, 7200>>],
           [std |-> -12600, dst |-> -9000, has |-> TRUE, b |-> <<3, 2, 0, 7200>>, e |-> <<11, 1, 0, 7200>>],
           [std |-> -1800, dst |-> 0, has |-> FALSE, b |-> <<>>, e |-> <<>>],
           [std |-> -900, dst |-> 2700, has |-> TRUE, b |-> <<4, 1, 1, 3600>>, e |-> <<9, 4, 3, 7200>>]>>
RuleDay(y, r) == LET f == Days(y, r[1], 1) IN LET d0 == f + ((r[3] - WDay(f)) % 7) IN
    IF r[2] < 5 THEN d0 + (7 * (r[2] - 1)) ELSE IF d0 + 28 < f + MDays(y, r[1]) THEN d0 + 28 ELSE d0 + 21
Begin(q, y) == Norm(RuleDay(y, q.b), q.b[4] - q.std)
End(q, y) == Norm(RuleDay(y, q.e), q.e[4] - q.dst)
Off(zi, t) == LET q == Zones[zi + 1] IN
    IF ~q.has THEN q.std
    ELSE LET y == YearOf(t[1]) IN LET b == Begin(q, y)  e == End(q, y) IN
        IF Lt(b, e) THEN (IF Leq(b, t) /\ Lt(t, e) THEN q.dst ELSE q.std) ELSE (IF Leq(e, t) /\ Lt(t, b) THEN q.std ELSE q.dst)
(* before 1971 the rules of a zone are not applied consistently by the C library *)
Ruled(zi, t) == ~Zones[zi + 1].has \/ t[1] > 380
Local(zi, t) == Plus(t, Off(zi, t))
(* the instants a local time may stand for: one usually, two when clocks go back; in a jump, either reading *)
Instants(zi, lt) == LET q == Zones[zi + 1]  offs == IF q.has THEN {q.std, q.dst} ELSE {q.std} IN
    LET ok == {o \in offs : Off(zi, Plus(lt, -o)) = o} IN {Plus(lt, -o) : o \in (IF ok = {} THEN offs ELSE ok)}

(* ---- roundings, in local time ---- *)
DayStart(n) == <<n, 0>>
FirstOfMonth(n, k) == LET c == Civil(n) IN LET mm == c[2] - 1 + k IN Days(c[1] + (mm \div 12), (mm % 12) + 1, 1)
WeekStart(n, f) == n - ((WDay(n) - f) % 7)
LenUnit(u) == IF u \in {"curminute", "nextminute"} THEN 60 ELSE 3600
RoundOk(zi, u, t, a, r) == LET lt == Local(zi, t)  n == Local(zi, t)[1] IN
    CASE ~Ruled(zi, t) \/ (u = "addday" /\ ~Ruled(zi, <<n + a, 0>>)) -> TRUE
      [] u \in {"curminute", "curhour"} ->
            Leq(r, t) /\ Lt(t, Plus(r, LenUnit(u))) /\ Local(zi, r)[2] % LenUnit(u) = 0
      [] u \in {"nextminute", "nexthour"} ->
            Lt(t, r) /\ Leq(r, Plus(t, LenUnit(u))) /\ Local(zi, r)[2] % LenUnit(u) = 0
      [] u = "curday" -> r \in Instants(zi, DayStart(n))
      [] u = "nextday" -> r \in Instants(zi, DayStart(n + 1))
      [] u = "addday" -> r \in Instants(zi, DayStart(n + a))
      [] u = "curweek" -> r \in Instants(zi, DayStart(WeekStart(n, a)))
      [] u = "nextweek" -> r \in Instants(zi, DayStart(WeekStart(n, a) + 7))
      [] u = "curmonth" -> r \in Instants(zi, DayStart(FirstOfMonth(n, 0)))
      [] u = "nextmonth" -> r \in Instants(zi, DayStart(FirstOfMonth(n, 1)))
      [] u = "curyear" -> r \in Instants(zi, DayStart(Days(Civil(n)[1], 1, 1)))

(* ---- texts ---- *)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
RECURSIVE PadL(_, _, _)
PadL(s, n, c) == IF Len(s) >= n THEN s ELSE PadL(<<c>> \o s, n, c)
D2(n) == PadL(Dec(n), 2, 48)
D3(n) == PadL(Dec(n), 3, 48)
D4(n) == PadL(Dec(n), 4, 48)
D6(n) == PadL(Dec(n), 6, 48)
SignedDec(n) == IF n < 0 THEN <<45>> \o Dec(0 - n) ELSE Dec(n)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Hms(s) == D2(s \div 3600) \o <<58>> \o D2((s \div 60) % 60) \o <<58>> \o D2(s % 60)
Iso(lt) == LET c == Civil(lt[1]) IN D4(c[1]) \o <<45>> \o D2(c[2]) \o <<45>> \o D2(c[3]) \o <<84>> \o Hms(lt[2])
IsoOff(o) == <<IF o < 0 THEN 45 ELSE 43>> \o D2(Abs(o) \div 3600) \o <<58>> \o D2((Abs(o) \div 60) % 60)
FmtG(t) == Iso(t) \o <<90>>
FmtGm(t, ms) == Iso(t) \o <<46>> \o D3(ms) \o <<90>>
FmtL(zi, t) == Iso(Local(zi, t)) \o IsoOff(Off(zi, t))
FmtLm(zi, t, ms) == Iso(Local(zi, t)) \o <<46>> \o D3(ms) \o IsoOff(Off(zi, t))

(* ---- parsing: <<"ok", instants>>, <<"fail">> or <<"open">> (texts on which nothing is promised) ---- *)
Ok(S) == <<"ok", S>>
Fail == <<"fail">>
Open == <<"open">>
At(s, i) == IF i > Len(s) THEN 0 ELSE s[i]
Digit(b) == b \in 48..57
Letter(b) == b \in 65..90 \/ b \in 97..122
Low(b) == IF b \in 65..90 THEN b + 32 ELSE b
LowS(s) == [i \in 1..Len(s) |-> Low(s[i])]
RECURSIVE NumFrom(_, _, _, _)
NumFrom(s, i, n, acc) == IF n = 0 THEN acc ELSE NumFrom(s, i + 1, n - 1, (10 * acc) + s[i] - 48)
Num(s, i, n) == IF i + n - 1 <= Len(s) /\ \A k \in i..(i + n - 1) : Digit(s[k]) THEN NumFrom(s, i, n, 0) ELSE -1
From(s, i) == IF i > Len(s) THEN <<>> ELSE SubSeq(s, i, Len(s))
Flag(fl, b) == (fl \div b) % 2 = 1
TzNames == [ut |-> 0, gmt |-> 0, z |-> 0, edt |-> -4, est |-> -5, cdt |-> -5, cst |-> -6, mdt |-> -6, mst |-> -7, pdt |-> -7, pst |-> -8,
            a |-> -1, m |-> -12, n |-> 1, y |-> 12]
TzText == [ut |-> <<117, 116>>, gmt |-> <<103, 109, 116>>, z |-> <<122>>, edt |-> <<101, 100, 116>>, est |-> <<101, 115, 116>>,
           cdt |-> <<99, 100, 116>>, cst |-> <<99, 115, 116>>, mdt |-> <<109, 100, 116>>, mst |-> <<109, 115, 116>>,
           pdt |-> <<112, 100, 116>>, pst |-> <<112, 115, 116>>, a |-> <<97>>, m |-> <<109>>, n |-> <<110>>, y |-> <<121>>]
Tz(s) == IF s = <<>> THEN Fail
    ELSE IF Letter(s[1]) THEN
        LET k == {x \in DOMAIN TzText : TzText[x] = LowS(s)} IN
        IF k # {} THEN Ok(3600 * TzNames[CHOOSE x \in k : TRUE]) ELSE IF \A i \in 1..Len(s) : Letter(s[i]) THEN Open ELSE Fail
    ELSE IF s[1] \notin {43, 45} THEN Fail
    ELSE LET h == Num(s, 2, 2)
             m == IF Len(s) = 6 /\ s[4] = 58 THEN Num(s, 5, 2) ELSE IF Len(s) = 5 THEN Num(s, 4, 2) ELSE IF Len(s) = 3 THEN 0 ELSE -1 IN
         IF h < 0 \/ m < 0 THEN Fail ELSE IF h > 23 \/ m > 59 THEN Open
         ELSE Ok((IF s[1] = 45 THEN -1 ELSE 1) * ((3600 * h) + (60 * m)))
(* period relative to the current time: P[nY][nM][nD][T[nH][nM][nS]] *)
RECURSIVE DigitsAt(_, _)
DigitsAt(s, i) == IF Digit(At(s, i)) THEN 1 + DigitsAt(s, i + 1) ELSE 0
(* the optional component "n" letter at i: <<value, next>> *)
Comp(s, i, c) == LET neg == At(s, i) = 45 IN LET j == IF neg THEN i + 1 ELSE i IN LET k == DigitsAt(s, j) IN
    IF k \in 1..4 /\ Low(At(s, j + k)) = c THEN <<(IF neg THEN -1 ELSE 1) * NumFrom(s, j, k, 0), j + k + 1>> ELSE <<0, i>>
Rel(zi, nw, s) ==
    LET y == Comp(s, 2, 121) IN LET mo == Comp(s, y[2], 109) IN LET d == Comp(s, mo[2], 100) IN
    LET tt == Low(At(s, d[2])) = 116 IN
    LET b == IF tt THEN d[2] + 1 ELSE d[2] IN
    LET h == IF tt THEN Comp(s, b, 104) ELSE <<0, b>> IN LET mi == IF tt THEN Comp(s, h[2], 109) ELSE <<0, b>> IN
    LET se == IF tt THEN Comp(s, mi[2], 115) ELSE <<0, b>> IN
    IF (tt /\ se[2] = b) \/ se[2] # Len(s) + 1 THEN
        (IF DigitsAt(s, 2) \in 1..4 /\ Letter(At(s, 2 + DigitsAt(s, 2))) /\ Low(At(s, 2 + DigitsAt(s, 2))) \notin {121, 109, 100, 116} THEN Fail ELSE Open)
    ELSE LET lt == Local(zi, nw) IN LET c == Civil(lt[1]) IN LET mm == c[2] - 1 + mo[1] IN
        Ok(Instants(zi, Norm(Days(c[1] + y[1] + (mm \div 12), (mm % 12) + 1, 1) + c[3] - 1 + d[1],
                             lt[2] + (3600 * h[1]) + (60 * mi[1]) + se[1])))
TimeOk(h, m, s) == h \in 0..23 /\ m \in 0..59 /\ s \in 0..59
IsoParse(zi, nw, s, fl) ==
    IF s = <<>> THEN Fail
    ELSE IF s[1] = 80 THEN Rel(zi, nw, s)
    ELSE LET y == Num(s, 1, 4)  mo == Num(s, 6, 2)  d == Num(s, 9, 2) IN
    IF y < 0 THEN (IF Letter(s[1]) THEN Fail ELSE Open)
    ELSE IF Digit(At(s, 5)) THEN Open
    ELSE IF At(s, 5) # 45 THEN Fail
    ELSE IF y < 1901 \/ y > 2100 THEN Open
    ELSE IF mo < 0 THEN (IF Len(s) < 6 THEN Fail ELSE Open)
    ELSE IF Digit(At(s, 8)) THEN Open
    ELSE IF mo \notin 1..12 \/ At(s, 8) # 45 THEN Fail
    ELSE IF d < 0 THEN (IF Len(s) < 9 THEN Fail ELSE Open)
    ELSE IF Digit(At(s, 11)) THEN Open
    ELSE IF ~MDayValid(d, mo, y) THEN Fail
    ELSE LET n == Days(y, mo, d) IN
    IF Len(s) = 10 THEN (IF Flag(fl, 4) \/ Flag(fl, 8) THEN Ok(Instants(zi, <<n, 0>>)) ELSE Fail)
    ELSE IF Flag(fl, 4) THEN Fail
    ELSE LET c == s[11] IN LET sys == c = 32 /\ Flag(fl, 2) IN
    IF ~sys /\ Low(c) # 116 THEN Fail
    ELSE LET h == Num(s, 12, 2)  mi == Num(s, 15, 2)  se == Num(s, 18, 2) IN
    IF h < 0 THEN (IF Len(s) < 12 THEN Fail ELSE Open)
    ELSE IF Digit(At(s, 14)) THEN Open
    ELSE IF Low(At(s, 14)) \notin {58, 108} THEN Fail
    ELSE IF mi < 0 THEN (IF Len(s) < 15 THEN Fail ELSE Open)
    ELSE IF Digit(At(s, 17)) THEN Open
    ELSE IF At(s, 17) # 58 THEN Fail
    ELSE IF se < 0 \/ Digit(At(s, 20)) \/ ~TimeOk(h, mi, se) THEN Open
    ELSE LET loc == Low(s[14]) = 108
             fr == IF At(s, 20) = 46 THEN DigitsAt(s, 21) ELSE 0
             i == IF At(s, 20) = 46 THEN 21 + fr ELSE 20
             lt == <<n, (3600 * h) + (60 * mi) + se>> IN
    IF At(s, 20) = 46 /\ fr \notin 1..9 THEN Open
    ELSE IF i = Len(s) + 1 THEN Ok(Instants(zi, lt))
    ELSE IF loc THEN Open
    ELSE IF sys /\ s[i] # 32 THEN Fail
    ELSE LET q == Tz(From(s, IF sys THEN i + 1 ELSE i)) IN
        IF q[1] = "ok" THEN Ok({Plus(lt, 0 - q[2])}) ELSE q

MonthText == <<<<106, 97, 110>>, <<102, 101, 98>>, <<109, 97, 114>>, <<97, 112, 114>>, <<109, 97, 121>>, <<106, 117, 110>>,
               <<106, 117, 108>>, <<97, 117, 103>>, <<115, 101, 112>>, <<111, 99, 116>>, <<110, 111, 118>>, <<100, 101, 99>>>>
DayText == {<<115, 117, 110>>, <<109, 111, 110>>, <<116, 117, 101>>, <<119, 101, 100>>, <<116, 104, 117>>, <<102, 114, 105>>, <<115, 97, 116>>}
MonthNo(t) == LET k == {i \in 1..12 : MonthText[i] = LowS(t)} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : TRUE
Slice(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, IF b > Len(s) THEN Len(s) ELSE b)
(* day month year time [zone], from i *)
RfcFrom(zi, s, i) ==
    LET nd == DigitsAt(s, i) IN
    LET d == NumFrom(s, i, nd, 0)  j == i + nd IN
    IF nd \notin 1..2 \/ At(s, j) # 32 THEN Open
    ELSE LET mt == Slice(s, j + 1, j + 3)  y == Num(s, j + 5, 4)
             h == Num(s, j + 10, 2)  mi == Num(s, j + 13, 2)  se == Num(s, j + 16, 2) IN
    IF Len(s) < j + 17 \/ \E k \in {j + 4, j + 9} : s[k] # 32 THEN Open
    ELSE IF s[j + 12] # 58 \/ s[j + 15] # 58 \/ y < 0 \/ h < 0 \/ mi < 0 \/ se < 0 THEN Open
    ELSE IF \E k \in 1..3 : ~Letter(mt[k]) THEN Open
    ELSE IF MonthNo(mt) = 0 \/ d = 0 \/ d > 31 \/ h > 24 \/ mi > 60 THEN Fail
    ELSE IF y < 1901 \/ y > 2100 \/ ~TimeOk(h, mi, se) \/ ~MDayValid(d, MonthNo(mt), y) THEN Open
    ELSE LET lt == <<Days(y, MonthNo(mt), d), (3600 * h) + (60 * mi) + se>> IN
        IF Len(s) = j + 17 THEN Ok(Instants(zi, lt))
        ELSE IF s[j + 18] # 32 \/ At(s, j + 19) = 32 \/ Len(s) = j + 18 THEN Open
        ELSE LET q == Tz(From(s, j + 19)) IN IF q[1] = "ok" THEN Ok({Plus(lt, 0 - q[2])}) ELSE q
(* long division by 86400 of the digits a..b *)
RECURSIVE LDiv(_, _, _, _, _)
LDiv(s, a, b, qq, r) == IF a > b THEN <<qq, r>> ELSE LET v == (10 * r) + s[a] - 48 IN LDiv(s, a + 1, b, (10 * qq) + (v \div Day), v % Day)
Unix(s) ==
    LET neg == s[1] = 45 IN LET a == IF neg THEN 2 ELSE 1 IN LET k == Len(s) - a + 1 IN
    IF k = 0 \/ (k > 1 /\ s[a] = 48) \/ k > 15 \/ (neg /\ k > 10) THEN Open
    ELSE IF k = 11 /\ s[a] = 51 /\ \A i \in 2..11 : s[i] = 48 THEN Open
    ELSE LET ms == ~neg /\ (k > 11 \/ (k = 11 /\ s[a] >= 51)) IN
        LET p == LDiv(s, a, IF ms THEN Len(s) - 3 ELSE Len(s), 0, 0) IN
        Ok({IF neg THEN Norm(0 - p[1], 0 - p[2]) ELSE p})
AnyParse(zi, nw, s) ==
    IF s = <<>> THEN Open
    ELSE IF Len(s) > 4 /\ (s[1] = 80 \/ s[5] = 45) THEN IsoParse(zi, nw, s, 10)
    ELSE IF Len(s) > 3 /\ (s[2] = 32 \/ s[3] = 32) THEN RfcFrom(zi, s, 1)
    ELSE IF Len(s) > 6 /\ s[4] = 44 /\ s[5] = 32 /\ \A k \in 1..3 : Letter(s[k])
         THEN (IF LowS(SubSeq(s, 1, 3)) \notin DayText THEN Fail ELSE RfcFrom(zi, s, 6))
    ELSE IF \A k \in 1..Len(s) : Digit(s[k]) \/ (k = 1 /\ s[1] = 45) THEN Unix(s)
    ELSE IF ~\E k \in 1..Len(s) : Digit(s[k]) \/ s[k] = 32 THEN Fail
    ELSE IF Digit(s[1]) /\ Letter(At(s, 1 + DigitsAt(s, 1))) /\ ~\E k \in 1..Len(s) : s[k] \in {32, 45, 44} THEN Fail
    ELSE Open
(* DD-MMM-[YY]YY *)
DMY(s) ==
    LET d == Num(s, 1, 2)  mt == Slice(s, 4, 6)
        yy == IF Len(s) = 9 THEN Num(s, 8, 2) ELSE IF Len(s) = 11 THEN Num(s, 8, 4) ELSE -1 IN
    IF Len(s) < 9 THEN Fail
    ELSE IF s[3] # 45 \/ s[7] # 45 \/ d < 0 \/ yy < 0 \/ 0 \in {s[i] : i \in 1..Len(s)} THEN Open
    ELSE LET y == IF yy < 70 THEN 2000 + yy ELSE IF yy < 100 THEN 1900 + yy ELSE yy IN
        IF MonthNo(mt) = 0 \/ y < 1970 \/ y > 2036 \/ ~MDayValid(d, IF MonthNo(mt) = 0 THEN 1 ELSE MonthNo(mt), y) THEN Fail
        ELSE Ok(<<y, MonthNo(mt), d>>)

(* ---- seconds and microseconds ---- *)
Mega == 1000000
TvN(s, u) == <<s + (u \div Mega), u % Mega>>
TvAdd(a, b) == TvN(a[1] + b[1], a[2] + b[2])
TvSub(a, b) == TvN(a[1] - b[1], a[2] - b[2])
TvMul(a, k) == TvN(a[1] * k, a[2] * k)
TvAddMs(a, k) == TvN(a[1] + (k \div 1000), a[2] + ((k % 1000) * 1000))
TvLt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* |d| < n microseconds, n <= 1000000 *)
TvWithin(d, n) == (d[1] = 0 /\ d[2] < n) \/ (d[1] = -1 /\ Mega - d[2] < n)
B(x) == IF x THEN 1 ELSE 0
DurText(a) == LET neg == a[1] < 0 IN
    LET s == IF ~neg THEN a[1] ELSE IF a[2] = 0 THEN 0 - a[1] ELSE 0 - a[1] - 1
        u == IF neg /\ a[2] # 0 THEN Mega - a[2] ELSE a[2] IN
    (IF neg THEN <<45>> ELSE <<>>) \o Dec(s \div Day) \o <<32>> \o PadL(Dec((s \div 3600) % 24), 2, 32) \o <<58>>
    \o D2((s \div 60) % 60) \o <<58>> \o D2(s % 60) \o <<46>> \o D6(u)
DateText(zi, a) == LET lt == Local(zi, Norm(0, a[1])) IN LET c == Civil(lt[1]) IN
    D2(c[3]) \o <<47>> \o D2(c[2]) \o <<47>> \o D4(c[1]) \o <<32>> \o PadL(Dec(lt[2] \div 3600), 2, 32) \o <<58>>
    \o D2((lt[2] \div 60) % 60) \o <<58>> \o D2(lt[2] % 60) \o <<46>> \o D6(a[2])

(* ---- durations in words ---- *)
Split(d, s) == <<d \div 365, (d % 365) \div 7, (d % 365) % 7, s \div 3600, (s \div 60) % 60, s % 60>>
EnText == <<<<121, 101, 97, 114>>, <<119, 101, 101, 107>>, <<100, 97, 121>>, <<104, 111, 117, 114>>, <<109, 105, 110, 117, 116, 101>>,
            <<115, 101, 99, 111, 110, 100>>>>
FrText == <<<<97, 110, 110, 195, 169, 101>>, <<115, 101, 109, 97, 105, 110, 101>>, <<106, 111, 117, 114>>, <<104, 101, 117, 114, 101>>,
            <<109, 105, 110, 117, 116, 101>>, <<115, 101, 99, 111, 110, 100, 101>>>>
First(r) == LET k == {i \in 1..6 : r[i] > 0} IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
Words(names, r, p) ==
    LET f == First(r) IN LET last == IF p < 0 \/ f + p > 6 THEN 6 ELSE f + p IN
    IF f = 0 THEN <<>>
    ELSE LET W(i) == Dec(r[i]) \o <<32>> \o names[i] \o (IF r[i] > 1 THEN <<115>> ELSE <<>>) IN
         LET G[i \in 0..6] == IF i = 0 THEN <<>> ELSE LET acc == G[i - 1] IN
                IF i < f \/ i > last \/ r[i] = 0 THEN acc ELSE IF acc = <<>> THEN W(i) ELSE acc \o <<44, 32>> \o W(i) IN G[6]

FtimeText(lt) == LET c == Civil(lt[1]) IN
    Dec(c[1]) \o <<45>> \o D2(c[2]) \o <<45>> \o D2(c[3]) \o <<32>> \o Hms(lt[2]) \o <<32>> \o Dec(WDay(lt[1])) \o <<32>> \o D3(YDay(c[1], c[2], c[3]) + 1)

P(x) == <<x[1], x[2]>>
Init == z = 0 /\ now = <<11574, 6400>> /\ ev = [op |-> "none"]
Same == UNCHANGED <<z, now>>
TmDays(x) == YDays(x[1]) + x[2]
Minus1(t) == P(t) = <<-1, 86399>>
StepOk(e) ==
    /\ e.tzok
    /\ CASE e.op = "round" -> RoundOk(z, e.u, IF P(e.t) = <<0, 0>> THEN now ELSE P(e.t), e.a, P(e.r))
         [] e.op = "diffdays" -> (Ruled(z, P(e.t)) /\ Ruled(z, P(e.t2))) => e.r = Local(z, IF P(e.t2) = <<0, 0>> THEN now ELSE P(e.t2))[1] - Local(z, IF P(e.t) = <<0, 0>> THEN now ELSE P(e.t))[1]
         [] e.op = "tmdiff" -> /\ e.d = TmDays(e.b) - TmDays(e.a)
                               /\ e.h = (24 * e.d) + e.b[3] - e.a[3]
                               /\ e.m = (60 * e.h) + e.b[4] - e.a[4]
         [] e.op = "mday" -> /\ e.r = MDayValid(e.d, e.m + 1, e.y)
                             /\ e.leap = Leap(e.y)
                             /\ e.y >= 1900 => e.nleap = Cardinality({x \in 1901..e.y : Leap(x)})
         [] e.op = "strtotm" -> LET q == DMY(e.s) IN
                CASE q[1] = "fail" -> e.r < 0 /\ Minus1(e.t)
                  [] q[1] = "ok" -> e.r = 0 /\ P(e.tm) = <<q[2][1], q[2][2]>> /\ e.tm[3] = q[2][3] /\ e.tm[4] = 5
                                    /\ LET I == Instants(z, <<Days(q[2][1], q[2][2], q[2][3]), 0>>) IN P(e.t) \in I \/ \E t \in I : ~Ruled(z, t)
                  [] OTHER -> TRUE
         [] e.op = "fmt" -> LET zz == IF e.z < 0 THEN z ELSE e.z  t == P(e.t) IN
                /\ e.g = FmtG(t) /\ e.g2 = e.g /\ e.gm = FmtGm(t, e.ms) /\ (Ruled(zz, t) => e.l = FmtL(zz, t) /\ e.lm = FmtLm(zz, t, e.ms))
                /\ e.sb = <<120>> \o e.g \o <<124>> \o e.gm \o <<124>> \o e.l \o <<124>> \o e.lm
         [] e.op = "parse" -> LET q == IF e.fl < 0 THEN AnyParse(z, now, e.s) ELSE IsoParse(z, now, e.s, e.fl) IN
                e.in /\ CASE q[1] = "fail" -> e.r < 0
                          [] q[1] = "ok" -> e.r = 0 /\ (P(e.t) \in q[2] \/ \E t \in q[2] : ~Ruled(z, t))
                          [] OTHER -> TRUE
         [] e.op = "tv" -> LET a == P(e.a)  b == P(e.b)  d == TvSub(a, b)  k == IF e.k = 0 THEN 1 ELSE e.k IN
                /\ P(e.add) = TvAdd(a, b) /\ P(e.sub) = d /\ P(e.left) = d /\ P(e.d64) = d
                /\ P(e.addms) = TvAddMs(a, e.k) /\ P(e.mul) = TvMul(a, e.k)
                /\ e.div[2] \in 0..(Mega - 1) /\ TvWithin(TvSub(a, TvMul(P(e.div), k)), Abs(k))
                /\ TvWithin(TvSub(d, <<e.dms[1], e.dms[2] * 1000>>), 1000)
                /\ P(e.ms) = <<a[1], a[2] \div 1000>>
                /\ (d[1] \in -2000..1999) => e.d32 = (d[1] * Mega) + d[2]
                /\ e.cmp = LET zero == <<0, 0>> IN <<B(a = zero), B(TvLt(a, zero)), B(~TvLt(zero, a)), B(TvLt(zero, a)), B(~TvLt(a, zero))>>
                /\ e.e1 = ~TvLt(b, a) /\ e.e2 = e.e1
                /\ e.dur = DurText(a) /\ (Ruled(z, Norm(0, a[1])) => e.date = DateText(z, a))
         [] e.op = "split" -> LET r == Split(e.d, e.s) IN
                e.r = r /\ e.en = Words(EnText, r, e.p) /\ e.fr = Words(FrText, r, e.p) /\ e.en0 = Words(EnText, r, -1) /\ e.fr0 = Words(FrText, r, -1)
         [] e.op = "ftime" -> LET x == FtimeText(Local(z, P(e.t)))  x2 == SignedDec(e.sec) IN
                /\ e.same
                /\ IF e.loc = 3 \/ Len(x) >= e.size THEN e.r = -1 ELSE e.r = Len(x) /\ e.b = x
                /\ (e.loc # 3 => e.r2 = Len(x2) /\ (Len(x2) < e.size => e.b2 = x2))
         [] OTHER -> FALSE
Step(e) ==
    CASE e.op = "zone" -> z' = e.z /\ UNCHANGED now /\ e.tzok
      [] e.op = "now" -> now' = P(e.t) /\ UNCHANGED z /\ e.tzok
      [] OTHER -> Same /\ StepOk(e)
=============================================================================
