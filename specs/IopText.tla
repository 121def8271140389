------------------------------ MODULE IopText ------------------------------
(* The XML form of IOP values, and the round trips through JSON and YAML.

   An element is <<name, type, kind, content>>: type is <<>> or <<its type attribute>>, and
   kind says what it holds: 0 text, 1 elements, 2 nothing but a reference to a message part,
   3 an Include element with such a reference, 4 nothing (nil), 5 text in a CDATA section,
   6 a text and elements mixed or split by comments.  XTree is the element a value is written
   as, Ser its text, and XDec* what an element is read as for a type: a value, a failure, or
   "open".  *)
EXTENDS Iop

Digit(d) == 48 + d
RECURSIVE DivAt(_, _, _, _), Dec10At(_)
\* quotient of the number a by 10 from byte i down, with remainder r: <<quotient, remainder>>
DivAt(a, i, r, q) == IF i = 0 THEN <<q, r>>
    ELSE LET x == r * 256 + a[i] IN DivAt(a, i - 1, x % 10, [q EXCEPT ![i] = x \div 10])
Dec10At(a) == LET d == DivAt(a, 8, 0, Zero8) IN
    (IF d[1] = Zero8 THEN <<>> ELSE Dec10At(d[1])) \o <<Digit(d[2])>>
RECURSIVE IncAt(_, _)
IncAt(a, i) == IF i > 8 THEN a ELSE IF a[i] = 255 THEN IncAt([a EXCEPT ![i] = 0], i + 1) ELSE [a EXCEPT ![i] = a[i] + 1]
Minus(a) == IncAt([i \in 1..8 |-> 255 - a[i]], 1)
Dec10(ty, a) == IF ty # "ulong" /\ Neg(a) THEN <<45>> \o Dec10At(Minus(a)) ELSE Dec10At(a)

\* 8 * n + d for a base n: <<result, carry>>
RECURSIVE MulAt(_, _, _, _)
MulAt(a, i, n, c) == IF i > 8 THEN <<a, c>>
    ELSE LET x == a[i] * n + c IN MulAt([a EXCEPT ![i] = x % 256], i + 1, n, x \div 256)
DigitOf(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
RECURSIVE Accum(_, _, _, _)
Accum(t, i, n, s) ==
    IF i > Len(t) THEN s
    ELSE IF DigitOf(t[i]) >= n THEN [s EXCEPT !.ok = FALSE]
    ELSE LET m == MulAt(s.a, 1, n, DigitOf(t[i])) IN Accum(t, i + 1, n, [ok |-> TRUE, a |-> m[1], of |-> s.of \/ m[2] # 0])
Blank == {9, 10, 11, 12, 13, 32}
RECURSIVE LTrim(_), RTrim(_)
LTrim(t) == IF t # <<>> /\ t[1] \in Blank THEN LTrim(Tail(t)) ELSE t
RTrim(t) == IF t # <<>> /\ t[Len(t)] \in Blank THEN RTrim(SubSeq(t, 1, Len(t) - 1)) ELSE t
Trim(t) == LTrim(RTrim(t))
NumBad == [ok |-> FALSE, neg |-> FALSE, a |-> Zero8, of |-> FALSE]
\* decimal, octal and hexadecimal integers
Num(t0) ==
    LET t1 == Trim(t0)
        sg == t1 # <<>> /\ t1[1] \in {43, 45}
        t == IF sg THEN Tail(t1) ELSE t1
        hex == Len(t) >= 2 /\ t[1] = 48 /\ t[2] \in {88, 120}
        n == IF hex THEN 16 ELSE IF t # <<>> /\ t[1] = 48 THEN 8 ELSE 10
        ds == IF hex THEN SubSeq(t, 3, Len(t)) ELSE t
    IN IF ds = <<>> THEN NumBad
       ELSE LET s == Accum(ds, 1, n, [ok |-> TRUE, a |-> Zero8, of |-> FALSE]) IN
            [ok |-> s.ok, neg |-> sg /\ t1[1] = 45, a |-> s.a, of |-> s.of]
XInt(ty, t) ==
    LET s == Num(t) IN
    IF ~s.ok \/ s.of THEN Fail
    ELSE IF ty = "ulong" THEN (IF ~s.neg THEN Ok(s.a) ELSE IF s.a # Zero8 THEN Fail ELSE Open)
    ELSE LET m == IF s.neg THEN Minus(s.a) ELSE s.a IN
         IF (s.neg /\ s.a # Zero8 /\ ~Neg(m)) \/ (~s.neg /\ Neg(m)) THEN Fail
         ELSE IF InRange(ty, m) THEN Ok(m) ELSE Fail
Lower(t) == [i \in 1..Len(t) |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
XBool(t0) == LET t == Lower(Trim(t0)) IN
    IF t \in {<<48>>, Txt.fal} THEN Ok(Zero8) ELSE IF t \in {<<49>>, Txt.tru} THEN Ok(Zext(<<1>>)) ELSE Fail
XDbl(t0) ==
    LET t == Trim(t0)
        ds == {d \in Dbls : d[1] = t}
    IN IF ds # {} THEN Ok((CHOOSE d \in ds : TRUE)[2])
       ELSE IF t = <<>> \/ t[1] \in {35, 98, 122} \/ t[Len(t)] \in {35, 98, 122} THEN Fail ELSE Open
XEnum(ty, t) ==
    LET ks == {k \in 1..Len(EnName[ty]) : Lower(EnName[ty][k][2]) = Lower(t)} IN
    IF ks # {} THEN Ok(Zext(Le(EnName[ty][CHOOSE k \in ks : TRUE][1], 2))) ELSE XInt(ty, t)

\* base64
SixOf(c) == CASE c \in 65..90 -> c - 65 [] c \in 97..122 -> c - 71 [] c \in 48..57 -> c + 4 [] c = 43 -> 62 [] c = 47 -> 63 [] OTHER -> -1
RECURSIVE ToB64(_)
ToB64(b) ==
    IF b = <<>> THEN <<>>
    ELSE LET x == b[1]
             y == IF Len(b) > 1 THEN b[2] ELSE 0
             z == IF Len(b) > 2 THEN b[3] ELSE 0
         IN <<B64[(x \div 4) + 1], B64[((x % 4) * 16) + (y \div 16) + 1],
              IF Len(b) > 1 THEN B64[((y % 16) * 4) + (z \div 64) + 1] ELSE 61,
              IF Len(b) > 2 THEN B64[(z % 64) + 1] ELSE 61>> \o ToB64(SubSeq(b, 4, Len(b)))
RECURSIVE UnB64(_)
UnB64(t) ==
    IF t = <<>> THEN <<>>
    ELSE LET s == [i \in 1..4 |-> IF t[i] = 61 THEN 0 ELSE SixOf(t[i])]
             b == <<s[1] * 4 + (s[2] \div 16), (s[2] % 16) * 16 + (s[3] \div 4), (s[3] % 4) * 64 + s[4]>>
         IN SubSeq(b, 1, IF t[3] = 61 THEN 1 ELSE IF t[4] = 61 THEN 2 ELSE 3) \o UnB64(SubSeq(t, 5, Len(t)))
\* canonical base64 is decoded, what has a character that is not base64 is refused
XB64(t) ==
    IF \E i \in 1..Len(t) : SixOf(t[i]) = -1 /\ t[i] # 61 /\ t[i] \notin Blank THEN Fail
    ELSE IF \/ Len(t) % 4 # 0
            \/ \E i \in 1..Len(t) : t[i] = 61 /\ (i < Len(t) - 1 \/ (i = Len(t) - 1 /\ t[Len(t)] # 61))
            \/ \E i \in 1..Len(t) : t[i] \in Blank
            \/ ToB64(UnB64(t)) # t THEN Open
    ELSE Ok(UnB64(t))

-----------------------------------------------------------------------------
(* Writing *)
Verbose(fl) == fl % 2 = 1
Literal(fl) == (fl \div 2) % 2 = 1
XElt(n, t, k, c) == <<n, t, k, c>>
EnumText(ty, v) ==
    LET ks == {k \in 1..Len(EnName[ty]) : EnName[ty][k][1] = EnumNum(v)} IN
    IF ks = {} THEN Dec10(ty, v) ELSE EnName[ty][CHOOSE k \in ks : TRUE][2]
KnownDbl(v) == \E d \in Dbls : d[2] = v /\ d[3]
FullName(ty) == Txt.vpt \o TyName[ty]

RECURSIVE XOne(_, _, _, _), XKids(_, _, _), XFields(_, _, _, _)
XOne(f, name, v, fl) ==
    LET ty == f.ty
        ty1 == IF Kind(ty) = "enum" THEN "int" ELSE ty
        tt == IF Verbose(fl) /\ ty1 \in DOMAIN XsiType THEN <<XsiType[ty1]>> ELSE <<>>
    IN CASE Kind(ty) = "enum" -> IF Literal(fl) THEN XElt(name, <<>>, 0, EnumText(ty, v)) ELSE XElt(name, tt, 0, Dec10(ty, v))
         [] ty = "bool" -> XElt(name, tt, 0, IF v = Zero8 THEN <<48>> ELSE <<49>>)
         [] IsInt(ty) -> XElt(name, tt, 0, Dec10(ty, v))
         [] ty = "double" -> XElt(name, tt, 0, IF KnownDbl(v) THEN (CHOOSE d \in Dbls : d[2] = v /\ d[3])[1] ELSE <<>>)
         [] ty = "string" -> XElt(name, tt, IF f.cd /\ v # <<>> THEN 5 ELSE 0, v)
         [] ty = "bytes" -> XElt(name, tt, 0, ToB64(v))
         [] ty = "void" -> XElt(name, <<>>, 4, <<>>)
         [] Kind(ty) = "class" -> XElt(name, <<FullName(ById(ty, v[1]))>>, 1, XKids(ty, v, fl))
         [] OTHER -> XElt(name, <<>>, 1, XKids(ty, v, fl))
XFields(ty, fs, v, fl) ==
    FlattenSeq([i \in 1..Len(fs) |->
        IF (SkipPriv(fl) /\ fs[i].pr) \/ (fs[i].r = "req" /\ fs[i].ty = "void") THEN <<>>
        ELSE [j \in 1..Len(v[i]) |-> XOne(fs[i], FdName[ty][i], v[i][j], fl)]])
XKids(ty, v, fl) ==
    CASE Sch[ty].k = "struct" -> XFields(ty, Sch[ty].f, v, fl)
      [] Sch[ty].k = "union" -> <<XOne(Sch[ty].f[v[1]], FdName[ty][v[1]], v[2], fl)>>
      [] OTHER -> LET ch == Chain(ById(ty, v[1])) n == Len(ch) IN
             FlattenSeq([i \in 1..n |-> XFields(ch[n + 1 - i], Sch[ch[n + 1 - i]].f, v[n + 2 - i], fl)])

EscC(c) == CASE c = 38 -> Txt.amp [] c = 60 -> Txt.lt [] c = 62 -> Txt.gt [] c = 39 -> Txt.ap [] c = 34 -> Txt.qu [] OTHER -> <<c>>
Esc(t) == FlattenSeq([i \in 1..Len(t) |-> EscC(t[i])])
HasCdEnd(t) == \E i \in 1..Len(t) - 2 : t[i] = 93 /\ t[i + 1] = 93 /\ t[i + 2] = 62
RECURSIVE Ser(_), Exact(_)
Ser(x) ==
    <<60>> \o x[1]
    \o (IF x[3] = 4 THEN Txt.nil ELSE IF x[2] = <<>> THEN <<>> ELSE IF x[3] = 1 THEN Txt.xn \o SubSeq(x[2][1], 5, Len(x[2][1])) \o <<34>> ELSE x[2][1])
    \o <<62>>
    \o (CASE x[3] = 0 -> Esc(x[4]) [] x[3] = 5 -> Txt.cdo \o x[4] \o Txt.cdc [] x[3] = 4 -> <<>>
          [] OTHER -> FlattenSeq([i \in 1..Len(x[4]) |-> Ser(x[4][i])]))
    \o <<60, 47>> \o x[1] \o <<62>>
\* no double of an unknown text, no text that ends the CDATA section it is in
Exact(x) == CASE x[3] = 5 -> ~HasCdEnd(x[4]) [] x[3] = 1 -> \A i \in 1..Len(x[4]) : Exact(x[4][i]) [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* Reading *)
IgnoreUnk(fl) == fl % 2 = 1
AllBlank(t) == t # <<>> /\ \A i \in 1..Len(t) : t[i] \in Blank
IsText(x) == x[3] \in {0, 5}

\* message parts that come with the documents: <<id, contents>>
Parts == {<<<<49, 50>>, <<112, 97, 114, 116, 32, 49>>>>, <<<<120, 64, 121>>, <<0, 255, 60>>>>}
RECURSIVE XDec(_, _, _, _), XDecFields(_, _, _, _, _)
\* the value of type ty of the element x; hp: message parts come with the document
XText(ty, x, hp) ==
    CASE x[3] \in {2, 3} ->
           LET ps == {p \in Parts : p[1] = x[4]} IN
           IF ~hp \/ ps = {} THEN Fail ELSE Ok((CHOOSE p \in ps : TRUE)[2])
      [] IsText(x) -> IF AllBlank(x[4]) THEN Open
                      ELSE IF ty = "bytes" THEN XB64(x[4]) ELSE Ok(x[4])
      [] x[3] = 4 -> Ok(<<>>)
      [] x[3] = 1 -> IF x[4] = <<>> THEN Ok(<<>>) ELSE Fail
      [] OTHER -> Open
XScalar(ty, x) ==
    IF x[3] \in {2, 4} THEN Fail
    ELSE IF x[3] = 6 THEN Open
    ELSE IF x[3] \in {1, 3} THEN Fail
    ELSE IF Trim(x[4]) = <<>> THEN Fail
    ELSE CASE Kind(ty) = "enum" -> XEnum(ty, x[4])
           [] ty = "bool" -> XBool(x[4]) [] ty = "double" -> XDbl(x[4]) [] OTHER -> XInt(ty, x[4])
\* the elements fs[k].. are made of the children xs, in order
XFieldsOf(ch) == FlattenSeq([i \in 1..Len(ch) |-> LET c == ch[Len(ch) + 1 - i] IN
                     [j \in 1..Len(Sch[c].f) |-> [f |-> Sch[c].f[j], n |-> FdName[c][j], lev |-> Len(ch) + 1 - i]]])
RECURSIVE Assign(_, _, _, _, _)
\* which children each field takes: a sequence (per field) of sequences of children, or "fail"
Assign(fs, k, xs, acc, fl) ==
    IF xs = <<>> THEN [ok |-> TRUE, a |-> acc]
    ELSE LET ks == {i \in k..Len(fs) : fs[i].n = xs[1][1]} IN
         IF ks = {} THEN IF IgnoreUnk(fl) THEN Assign(fs, k, Tail(xs), acc, fl) ELSE [ok |-> FALSE]
         ELSE LET i == CHOOSE i \in ks : \A j \in ks : i <= j
                  many == fs[i].f.r = "rep" \/ fs[i].f.ty = "void"
                  run == {n \in 1..Len(xs) : \A m \in 1..n : xs[m][1] = xs[1][1]}
                  n == IF many THEN CHOOSE m \in run : \A o \in run : o <= m ELSE 1
              IN IF ForbidPriv(fl) /\ fs[i].f.pr THEN [ok |-> FALSE]
                 ELSE Assign(fs, i + 1, SubSeq(xs, n + 1, Len(xs)), [acc EXCEPT ![i] = SubSeq(xs, 1, n)], fl)
XDecField(f, xs, fl, hp) ==
    IF xs = <<>> THEN Absent(f)
    ELSE IF f.ty = "void" THEN Ok(<<<<>>>>)
    ELSE LET r == Join([i \in 1..Len(xs) |-> XDec(f.ty, xs[i], fl, hp)])
         IN IF r.st = "ok" /\ ~FieldOk(f, r.v) THEN Fail ELSE r
\* Fail wins: nothing after a refused child is judged, but an open one before may change it
XDecFields(fs, xs, fl, hp, tree) ==
    LET a == Assign(fs, 1, xs, [i \in 1..Len(fs) |-> <<>>], fl) IN
    IF ~a.ok THEN Fail ELSE Join([i \in 1..Len(fs) |-> XDecField(fs[i].f, a.a[i], fl, hp)])
ByName(t) == LET cs == {c \in Types : Sch[c].k = "class" /\ FullName(c) = t} IN IF cs = {} THEN "" ELSE CHOOSE c \in cs : TRUE
XDec(ty, x, fl, hp) ==
    CASE IsStr(ty) -> XText(ty, x, hp)
      [] ty = "void" -> Ok(<<>>)
      [] ~IsAgg(ty) -> XScalar(ty, x)
      [] x[3] = 6 \/ (IsText(x) /\ x[4] # <<>>) \/ x[3] \in {2, 3} -> Open
      [] Sch[ty].k = "struct" -> XDecFields(XFieldsOf(<<ty>>), x[4], fl, hp, x)
      [] Sch[ty].k = "union" ->
           IF x[4] = <<>> THEN Fail
           ELSE LET ks == {k \in 1..Len(Sch[ty].f) : FdName[ty][k] = x[4][1][1]} IN
                IF ks = {} THEN Fail
                ELSE LET k == CHOOSE k \in ks : TRUE
                         f == Sch[ty].f[k]
                         r == XDecField(f, IF f.ty = "void" THEN x[4] ELSE <<x[4][1]>>, fl, hp)
                         one == Len(x[4]) = 1 \/ (f.ty = "void" /\ \A i \in 1..Len(x[4]) : x[4][i][1] = FdName[ty][k])
                     IN IF ~one THEN (IF r.st = "open" THEN Open ELSE Fail)
                        ELSE IF r.st = "ok" THEN Ok(<<k, r.v[1]>>) ELSE r
      [] OTHER ->
           LET c == IF x[2] = <<>> THEN ty ELSE ByName(x[2][1]) IN
           IF c = "" \/ c \notin Children(ty) THEN Fail
           ELSE IF Sch[c].abs \/ (ForbidPriv(fl) /\ Sch[c].pr) THEN Fail
           ELSE LET ch == Chain(c)
                    fs == XFieldsOf(ch)
                    r == XDecFields(fs, x[4], fl, hp, x)
                    lev(i) == SelectSeq([j \in 1..Len(fs) |-> <<fs[j].lev, j>>], LAMBDA p : p[1] = i)
                IN IF r.st # "ok" THEN r
                   ELSE Ok(<<Sch[c].id>> \o [i \in 1..Len(ch) |-> LET q == lev(i) IN [m \in 1..Len(q) |-> r.v[q[m][2]]]])

-----------------------------------------------------------------------------
(* Operations *)
XRoot(x, fl) == <<<<>>, IF Kind(x.t) = "class" THEN <<FullName(ById(x.t, x.v[1]))>> ELSE <<>>, 1, XKids(x.t, x.v, fl)>>
XPack(e) ==
    LET x == slot[e.s]
        r == XRoot(x, e.fl)
        b == FlattenSeq([i \in 1..Len(r[4]) |-> Ser(r[4][i])])
        d == XDec(x.t, r, e.ufl, FALSE)
    IN /\ Keep
       /\ Exact(r) => e.b = b
       \* and read back, in a root element of its type
       /\ d.st = "ok" => e.ok /\ e.v = d.v
       /\ d.st = "fail" => ~e.ok
XUnpack(e) ==
    LET r == XDec(e.t, e.x, e.fl, e.hp) IN
    /\ r.st = "ok" => e.ok /\ e.v = r.v
    /\ r.st = "fail" => ~e.ok
    /\ IF e.ok THEN Put(e.s, e.t, e.v) ELSE slot' = [slot EXCEPT ![e.s] = None]

\* what is left of a value written without its private fields
RECURSIVE NoPriv(_, _), NoPrivF(_, _)
NoPrivF(fs, v) == Join([i \in 1..Len(fs) |->
    IF fs[i].pr THEN Absent(fs[i])
    ELSE IF ~IsAgg(fs[i].ty) THEN Ok(v[i])
    ELSE Join([j \in 1..Len(v[i]) |-> NoPriv(fs[i].ty, v[i][j])])])
NoPriv(ty, v) ==
    CASE Sch[ty].k = "struct" -> NoPrivF(Sch[ty].f, v)
      [] Sch[ty].k = "union" -> IF ~IsAgg(Sch[ty].f[v[1]].ty) THEN Ok(v)
                                ELSE LET r == NoPriv(Sch[ty].f[v[1]].ty, v[2]) IN IF r.st = "ok" THEN Ok(<<v[1], r.v>>) ELSE r
      [] OTHER -> LET ch == Chain(ById(ty, v[1]))
                      r == Join([i \in 1..Len(ch) |-> NoPrivF(Sch[ch[i]].f, v[i + 1])])
                  IN IF r.st = "ok" THEN Ok(<<v[1]>> \o r.v) ELSE r
\* through JSON (8: without private fields) or YAML, and back
RoundTrip(e) ==
    LET x == slot[e.s]
        r == IF e.np THEN NoPriv(x.t, x.v) ELSE Ok(x.v)
    IN /\ Keep
       /\ IF r.st = "ok" /\ Conform(x.t, r.v) THEN e.ok /\ e.v = r.v
          ELSE r.st = "ok" => ~e.ok

TStep(e) ==
    CASE e.op = "set" -> Set(e) [] e.op = "xpack" -> XPack(e) [] e.op = "xunpack" -> XUnpack(e)
      [] e.op = "rt" -> RoundTrip(e) [] OTHER -> FALSE
=============================================================================
