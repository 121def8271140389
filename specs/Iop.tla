-------------------------------- MODULE Iop --------------------------------
(* IOP values and their binary wire format.

   A type is a structure, a union, a class or an enumeration of IopSchema.  A value is
     - integers, booleans, enumerations, doubles: the 8 little endian bytes of the 64 bit
       (sign extended) number or of the double;
     - strings, data: the bytes;  void: <<>>;
     - structures: one sequence of values per field, in the order of the tags (empty when an
       optional field is absent);
     - unions: <<index of the selected field, value>>;
     - classes: <<class id, fields of the real class, fields of its parent, ...>>.

   Enc/EncBody define the bytes a value is packed to, Dec* what any byte string is unpacked to:
   a value, a failure, or "open" (the format does not say).  *)
EXTENDS IopSchema, SequencesExt, FiniteSets

Types  == DOMAIN Sch
Kind(ty) == IF ty \in Types THEN Sch[ty].k ELSE ty
IsInt(ty) == \/ ty \in {"byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "bool"}
             \/ ty \in Types /\ Sch[ty].k = "enum"
IsStr(ty) == ty \in {"string", "bytes", "xml"}
IsAgg(ty) == ty \in Types /\ Sch[ty].k \in {"struct", "union", "class"}
\* array elements laid out as raw bytes, and their size
SmallSize(ty) == CASE ty \in {"byte", "ubyte", "bool"} -> 1 [] ty \in {"short", "ushort"} -> 2 [] OTHER -> 0

RECURSIVE Chain(_)
Chain(c) == IF c = "" THEN <<>> ELSE <<c>> \o Chain(Sch[c].up)
Children(c) == {d \in Types : Sch[d].k = "class" /\ \E i \in 1..Len(Chain(d)) : Chain(d)[i] = c}
Root(c) == Chain(c)[Len(Chain(c))]
\* the class of a given id in a hierarchy ("" if there is none)
ById(c, id) == LET s == {d \in Children(Root(c)) : Sch[d].id = id} IN IF s = {} THEN "" ELSE CHOOSE d \in s : TRUE

-----------------------------------------------------------------------------
(* 64 bit numbers as 8 bytes *)
RECURSIVE ULtAt(_, _, _)
ULtAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULtAt(a, b, i - 1)
ULt(a, b) == ULtAt(a, b, 8)
Neg(a) == a[8] >= 128
SLt(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE ULt(a, b)
Fits(a, k) == \A i \in k + 1 .. 8 : a[i] = (IF a[k] >= 128 THEN 255 ELSE 0)
FitsU(a, k) == \A i \in k + 1 .. 8 : a[i] = 0
Sext(b) == [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE IF b[Len(b)] >= 128 THEN 255 ELSE 0]
Zext(b) == [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE 0]
Small(a) == IF Neg(a) THEN -((255 - a[1]) + (255 - a[2]) * 256 + (255 - a[3]) * 65536) - 1
            ELSE a[1] + a[2] * 256 + a[3] * 65536     \* when it fits 3 bytes
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>

InRange(ty, a) ==
    CASE ty = "byte" -> Fits(a, 1) [] ty = "ubyte" -> FitsU(a, 1) [] ty = "short" -> Fits(a, 2)
      [] ty = "ushort" -> FitsU(a, 2) [] ty = "uint" -> FitsU(a, 4) [] ty \in {"long", "ulong"} -> TRUE
      [] ty = "bool" -> FitsU(a, 1) /\ a[1] <= 1
      [] OTHER -> Fits(a, 4)
Unsigned(ty) == ty \in {"ubyte", "ushort", "uint", "ulong"}

-----------------------------------------------------------------------------
(* Constraints *)
EnumNum(a) == IF Fits(a, 3) THEN Small(a) ELSE -9999999   \* no enumeration of the schema has such values

\* one value of the field
ValOk(f, v) ==
    /\ f.mn = <<>> \/ ~ (IF Unsigned(f.ty) THEN ULt(v, f.mn[1]) ELSE SLt(v, f.mn[1]))
    /\ f.mx = <<>> \/ ~ (IF Unsigned(f.ty) THEN ULt(f.mx[1], v) ELSE SLt(f.mx[1], v))
    /\ f.nz => v # Zero8
    /\ IsStr(f.ty) => /\ f.ne => Len(v) > 0
                      /\ Len(v) >= f.mnl /\ Len(v) <= f.mxl
                      /\ f.pat = <<>> \/ \A i \in 1..Len(v) : v[i] \in f.pat[1]
    /\ f.bad = <<>> \/ (IF Kind(f.ty) = "enum" THEN EnumNum(v) ELSE v[1]) \notin f.bad[1]
    /\ (Kind(f.ty) = "enum" /\ Sch[f.ty].strict) => EnumNum(v) \in Sch[f.ty].vals
\* the values of a field that is present
FieldOk(f, vs) ==
    /\ f.r = "rep" => Len(vs) >= f.mno /\ Len(vs) <= f.mxo
    /\ \A i \in 1..Len(vs) : ValOk(f, vs[i])

RECURSIVE Conform(_, _), ConformF(_, _)
ConformF(fs, v) ==
    \A i \in 1..Len(fs) :
        /\ (fs[i].r = "def" /\ v[i][1] = fs[i].d[1]) \/ (fs[i].r = "opt" /\ v[i] = <<>>) \/ FieldOk(fs[i], v[i])
        /\ IsAgg(fs[i].ty) => \A j \in 1..Len(v[i]) : Conform(fs[i].ty, v[i][j])
Conform(ty, v) ==
    CASE Sch[ty].k = "struct" -> ConformF(Sch[ty].f, v)
      [] Sch[ty].k = "union" -> ConformF(<<Sch[ty].f[v[1]]>>, <<<<v[2]>>>>)
      [] Sch[ty].k = "class" -> LET ch == Chain(ById(ty, v[1])) IN
             ~Sch[ch[1]].abs /\ \A i \in 1..Len(ch) : ConformF(Sch[ch[i]].f, v[i + 1])

-----------------------------------------------------------------------------
(* Packing *)
SkipDef(fl) == fl % 2 = 1
Strict(fl)  == (fl \div 2) % 2 = 1
SkipPriv(fl) == (fl \div 4) % 2 = 1

BLK1 == 0  BLK2 == 1  BLK4 == 2  QUAD == 3  INT1 == 4  INT2 == 5  INT4 == 6  REPEAT == 7
Tag(t, wt) == IF t < 30 THEN <<wt * 32 + t>>
              ELSE IF t < 256 THEN <<wt * 32 + 30, t>>
              ELSE <<wt * 32 + 31, t % 256, t \div 256>>
Le(n, k) == [i \in 1..k |-> IF i = 1 THEN n % 256 ELSE IF i = 2 THEN (n \div 256) % 256
                            ELSE IF i = 3 THEN (n \div 65536) % 256 ELSE n \div 16777216]
Blk(t, b) == LET n == Len(b) IN
    (IF n < 256 THEN Tag(t, BLK1) \o Le(n, 1) ELSE IF n < 65536 THEN Tag(t, BLK2) \o Le(n, 2)
     ELSE Tag(t, BLK4) \o Le(n, 4)) \o b
PackInt(t, a) == IF Fits(a, 1) THEN Tag(t, INT1) \o SubSeq(a, 1, 1)
                 ELSE IF Fits(a, 2) THEN Tag(t, INT2) \o SubSeq(a, 1, 2)
                 ELSE IF Fits(a, 4) THEN Tag(t, INT4) \o SubSeq(a, 1, 4)
                 ELSE Tag(t, QUAD) \o a

RECURSIVE EncVal(_, _, _, _), EncBody(_, _, _), EncFields(_, _, _)
EncVal(t, ty, v, fl) ==
    CASE IsInt(ty) -> PackInt(t, v)
      [] ty = "double" -> Tag(t, QUAD) \o v
      [] ty = "void" -> Blk(t, <<>>)
      [] IsStr(ty) -> Blk(t, Append(v, 0))
      [] OTHER -> LET b == EncBody(ty, v, fl) IN Blk(t, b)
EncField(f, vs, fl) ==
    IF \/ SkipPriv(fl) /\ f.pr
       \/ vs = <<>>
       \/ f.r = "req" /\ f.ty = "void"
       \/ SkipDef(fl) /\ f.r = "def" /\ vs[1] = f.d[1]
    THEN <<>>
    ELSE IF Len(vs) = 1 THEN EncVal(f.tag, f.ty, vs[1], fl)
    ELSE IF SmallSize(f.ty) > 0 THEN
        Blk(f.tag, FlattenSeq([i \in 1..Len(vs) |-> SubSeq(vs[i], 1, SmallSize(f.ty))]))
    ELSE Tag(f.tag, REPEAT) \o Le(Len(vs), 4) \o FlattenSeq([i \in 1..Len(vs) |-> EncVal(0, f.ty, vs[i], fl)])
EncFields(fs, v, fl) == FlattenSeq([i \in 1..Len(fs) |-> EncField(fs[i], v[i], fl)])
EncBody(ty, v, fl) ==
    CASE Sch[ty].k = "struct" -> EncFields(Sch[ty].f, v, fl)
      [] Sch[ty].k = "union" -> EncVal(Sch[ty].f[v[1]].tag, Sch[ty].f[v[1]].ty, v[2], fl)
      [] OTHER ->
         LET ch == Chain(ById(ty, v[1]))
             lev == [i \in 1..Len(ch) |-> EncFields(Sch[ch[i]].f, v[i + 1], fl)]
         IN FlattenSeq([i \in 1..Len(ch) |->
              IF i = 1 \/ lev[i] # <<>>
              THEN PackInt(0, Zext(<<Sch[ch[i]].id % 256, Sch[ch[i]].id \div 256>>)) \o lev[i]
              ELSE <<>>])

-----------------------------------------------------------------------------
(* Unpacking *)
Fail == [st |-> "fail"]
Open == [st |-> "open"]
Ok(v) == [st |-> "ok", v |-> v]

LenAt(b, p, k) == IF k = 1 THEN b[p] ELSE IF k = 2 THEN b[p] + 256 * b[p + 1]
                  ELSE IF b[p + 3] >= 16 THEN 268435456      \* more than any input of the checks
                  ELSE b[p] + 256 * b[p + 1] + 65536 * b[p + 2] + 16777216 * b[p + 3]

\* the value of wire type wt at p: [ok, k, v | lo, hi | els, next]; positions are inclusive
RECURSIVE WireVal(_, _, _, _), WireEls(_, _, _, _, _)
WireBad == [ok |-> FALSE]
WireVal(b, p, hi, wt) ==
    CASE wt \in {BLK1, BLK2, BLK4} ->
           LET k == IF wt = BLK1 THEN 1 ELSE IF wt = BLK2 THEN 2 ELSE 4 IN
           IF p + k - 1 > hi THEN WireBad
           ELSE LET n == LenAt(b, p, k) IN
                IF p + k + n - 1 > hi THEN WireBad
                ELSE [ok |-> TRUE, k |-> "blk", lo |-> p + k, hi |-> p + k + n - 1, next |-> p + k + n]
      [] wt = REPEAT ->
           IF p + 3 > hi THEN WireBad
           ELSE LET n == LenAt(b, p, 4) IN
                IF n < 1 \/ n > hi - p THEN WireBad
                ELSE WireEls(b, p + 4, hi, n, <<>>)
      [] OTHER ->
           LET k == IF wt = QUAD THEN 8 ELSE IF wt = INT1 THEN 1 ELSE IF wt = INT2 THEN 2 ELSE 4 IN
           IF p + k - 1 > hi THEN WireBad
           ELSE [ok |-> TRUE, k |-> IF wt = QUAD THEN "quad" ELSE "int",
                 v |-> Sext(SubSeq(b, p, p + k - 1)), next |-> p + k]
WireEls(b, p, hi, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, k |-> "rep", els |-> acc, next |-> p]
    ELSE IF p > hi \/ b[p] % 32 # 0 THEN WireBad
    ELSE LET x == WireVal(b, p + 1, hi, b[p] \div 32) IN
         IF ~x.ok THEN WireBad ELSE WireEls(b, x.next, hi, n - 1, Append(acc, x))

\* the items of a block: [ok, items], each with its tag
RECURSIVE Items(_, _, _, _)
Items(b, p, hi, acc) ==
    IF p > hi THEN [ok |-> TRUE, it |-> acc]
    ELSE LET t0 == b[p] % 32
             tl == IF t0 < 30 THEN 0 ELSE t0 - 29
         IN IF p + tl > hi THEN [ok |-> FALSE, it |-> acc, bad |-> 0, end |-> FALSE]
            ELSE LET tag == IF tl = 0 THEN t0 ELSE LenAt(b, p + 1, tl)
                     x == WireVal(b, p + 1 + tl, hi, b[p] \div 32)
                 IN IF ~x.ok THEN [ok |-> FALSE, it |-> acc, bad |-> tag, end |-> p + tl = hi]
                    ELSE Items(b, x.next, hi, Append(acc, [tag |-> tag, x |-> x]))

\* malformed, but where readers may have stopped: the input ends after a tag above those of
\* the fields, or the tag is not above the previous one
LastTag(s) == IF s = <<>> THEN 0 ELSE s[Len(s)].tag
BareEnd(p, fs) == ~p.ok /\ ((p.end /\ p.bad > LastTag(fs)) \/ (p.bad > 0 /\ p.bad <= LastTag(p.it)))

Increasing(it) == \A i \in 1..Len(it) - 1 : it[i].tag < it[i + 1].tag

\* sequence of results -> result of the sequence (SubSeq: evaluates each of them once)
Join(rs0) == LET rs == SubSeq(rs0, 1, Len(rs0)) IN
            IF \E i \in 1..Len(rs) : rs[i].st = "open" THEN Open
            ELSE IF \E i \in 1..Len(rs) : rs[i].st = "fail" THEN Fail
            ELSE Ok([i \in 1..Len(rs) |-> rs[i].v])

RECURSIVE Absent(_), AbsentF(_)
AbsentF(fs) == Join([i \in 1..Len(fs) |-> Absent(fs[i])])
Absent(f) ==
    CASE f.r = "opt" -> Ok(<<>>)
      [] f.r = "rep" -> IF f.mno > 0 THEN Fail ELSE Ok(<<>>)
      [] f.r = "def" -> Ok(f.d)
      [] f.ty = "void" -> Ok(<<<<>>>>)
      [] Kind(f.ty) = "struct" -> LET r == AbsentF(Sch[f.ty].f) IN IF r.st = "ok" THEN Ok(<<r.v>>) ELSE r
      [] Kind(f.ty) = "class" ->
           IF Sch[f.ty].abs THEN Fail
           ELSE LET ch == Chain(f.ty)
                    r == Join([i \in 1..Len(ch) |-> AbsentF(Sch[ch[i]].f)])
                IN IF r.st = "ok" THEN Ok(<<<<Sch[f.ty].id>> \o r.v>>) ELSE r
      [] OTHER -> Fail

ForbidPriv(fl) == (fl \div 2) % 2 = 1

RECURSIVE DecX(_, _, _, _), DecField(_, _, _, _), DecFields(_, _, _, _), DecBlock(_, _, _, _, _), DecLevels(_, _, _, _)
\* one value of type ty from a wire value
DecX(b, ty, x, fl) ==
    CASE x.k = "rep" -> Fail
      [] IsInt(ty) -> IF x.k \in {"int", "quad"} /\ InRange(ty, x.v) THEN Ok(x.v) ELSE Fail
      [] ty = "double" -> IF x.k = "quad" THEN Ok(x.v) ELSE Fail
      [] ty = "void" -> Ok(<<>>)
      [] IsStr(ty) -> IF x.k # "blk" \/ x.hi < x.lo THEN Fail
                      ELSE IF b[x.hi] # 0 THEN Open
                      ELSE Ok(SubSeq(b, x.lo, x.hi - 1))
      [] OTHER -> IF x.k # "blk" THEN Fail ELSE DecBlock(b, ty, x.lo, x.hi, fl)
DecField(b, f, x, fl) ==
    LET r == IF f.r # "rep" THEN
                 LET q == DecX(b, f.ty, IF x.k = "rep" THEN x.els[Len(x.els)] ELSE x, fl)
                 IN IF q.st = "ok" THEN Ok(<<q.v>>) ELSE q
             ELSE IF SmallSize(f.ty) > 0 /\ x.k = "blk" THEN
                 LET z == SmallSize(f.ty)
                     n == (x.hi - x.lo + 1) \div z
                     e(i) == SubSeq(b, x.lo + (i - 1) * z, x.lo + i * z - 1)
                 IN IF (x.hi - x.lo + 1) % z # 0 THEN Fail
                    ELSE IF f.ty = "bool" /\ \E i \in 1..n : b[x.lo + i - 1] > 1 THEN Open
                    ELSE Ok([i \in 1..n |-> IF Unsigned(f.ty) \/ f.ty = "bool" THEN Zext(e(i)) ELSE Sext(e(i))])
             ELSE IF x.k = "rep" THEN
                 IF SmallSize(f.ty) > 0 /\ x.els[1].k = "blk" THEN Open
                 ELSE Join([i \in 1..Len(x.els) |-> DecX(b, f.ty, x.els[i], fl)])
             ELSE LET q == DecX(b, f.ty, x, fl) IN IF q.st = "ok" THEN Ok(<<q.v>>) ELSE q
    IN IF ForbidPriv(fl) /\ f.pr THEN Fail
       ELSE IF r.st = "ok" /\ ~FieldOk(f, r.v) THEN Fail ELSE r
\* the fields of a structure, or of one level of a class, from its items (unknown tags are skipped)
DecFields(b, fs, it, fl) ==
    IF ~Increasing(it) THEN Open
    ELSE Join([i \in 1..Len(fs) |->
             LET js == {j \in 1..Len(it) : it[j].tag = fs[i].tag}
             IN IF js = {} THEN Absent(fs[i]) ELSE DecField(b, fs[i], it[CHOOSE j \in js : TRUE].x, fl)])

ClassIdOf(x) == IF x.k # "int" THEN -1
                ELSE IF FitsU(x.v, 2) \/ Fits(x.v, 2) THEN x.v[1] + 256 * x.v[2] ELSE -2
\* what follows the level of chain[1], from the items it (the first one changes of level, if any)
DecLevels(b, ch, it, fl) ==
    IF ch = <<>> THEN (IF it = <<>> THEN <<>> ELSE <<Open>>)
    ELSE IF it = <<>> THEN [i \in 1..Len(ch) |-> AbsentF(Sch[ch[i]].f)]
    ELSE LET id == ClassIdOf(it[1].x) IN
         IF id = -1 THEN <<Fail>>
         ELSE IF id = -2 THEN <<Open>>
         ELSE IF Sch[ch[1]].id # id THEN <<AbsentF(Sch[ch[1]].f)>> \o
                 (IF Len(ch) = 1 THEN <<Fail>> ELSE DecLevels(b, Tail(ch), it, fl))
         ELSE LET zs == {j \in 2..Len(it) : it[j].tag = 0}
                  e == IF zs = {} THEN Len(it) + 1 ELSE CHOOSE j \in zs : \A k \in zs : j <= k
              IN <<DecFields(b, Sch[ch[1]].f, SubSeq(it, 2, e - 1), fl)>>
                 \o DecLevels(b, Tail(ch), SubSeq(it, e, Len(it)), fl)

DecBlock(b, ty, lo, hi, fl) ==
    CASE Sch[ty].k = "struct" ->
           LET p == Items(b, lo, hi, <<>>) IN
           IF ~Increasing(p.it) THEN Open
           ELSE IF BareEnd(p, Sch[ty].f) THEN Open
           ELSE IF ~p.ok THEN Fail
           ELSE IF Len(p.it) > 0 /\ p.it[1].tag = 0 THEN Fail
           ELSE DecFields(b, Sch[ty].f, p.it, fl)
      [] Sch[ty].k = "union" ->
           IF lo > hi THEN Fail
           ELSE LET t0 == b[lo] % 32
                    tl == IF t0 < 30 THEN 0 ELSE t0 - 29
                IN IF lo + tl > hi THEN Fail
                   ELSE LET tag == IF tl = 0 THEN t0 ELSE LenAt(b, lo + 1, tl)
                            ks == {k \in 1..Len(Sch[ty].f) : Sch[ty].f[k].tag = tag}
                            x == WireVal(b, lo + 1 + tl, hi, b[lo] \div 32)
                        IN IF ks = {} \/ b[lo] \div 32 = REPEAT \/ ~x.ok THEN Fail
                           ELSE LET k == CHOOSE k \in ks : TRUE
                                    q == DecField(b, Sch[ty].f[k], x, fl)
                                IN IF q.st # "ok" THEN q
                                   ELSE IF x.next <= hi THEN Open
                                   ELSE Ok(<<k, q.v[1]>>)
      [] OTHER ->
           LET p == Items(b, lo, hi, <<>>)
               bare == lo > hi \/ (lo <= hi /\ b[lo] % 32 # 0)
               long0 == Len(p.it) > 0 /\ p.it[1].tag = 0 /\ bare      \* tag 0 in a long form
           IN IF long0 THEN Open
              ELSE IF bare THEN
                 IF Sch[ty].up # "" THEN Fail
                 ELSE IF \E i \in 1..Len(p.it) : p.it[i].tag = 0 THEN Open
                 ELSE IF ~Increasing(p.it) \/ BareEnd(p, Sch[ty].f) \/ (~p.ok /\ p.bad = 0) THEN Open
                 ELSE IF ~p.ok \/ Sch[ty].abs \/ (ForbidPriv(fl) /\ Sch[ty].pr) THEN Fail
                 ELSE LET r == DecFields(b, Sch[ty].f, p.it, fl) IN
                      IF r.st = "ok" THEN Ok(<<Sch[ty].id, r.v>>) ELSE r
              ELSE IF p.it = <<>> THEN Fail
              ELSE LET id == ClassIdOf(p.it[1].x) IN
                   IF id = -1 THEN Fail ELSE IF id = -2 THEN Open
                   ELSE LET c == ById(ty, id) IN
                        IF c = "" \/ c \notin Children(ty) THEN Fail
                        ELSE IF Sch[c].abs \/ (ForbidPriv(fl) /\ Sch[c].pr) THEN Fail
                        ELSE LET r == Join(DecLevels(b, Chain(c), p.it, fl)) IN
                             IF r.st = "open" \/ (~p.ok /\ (p.end \/ p.bad <= LastTag(p.it))) THEN Open
                             ELSE IF r.st = "fail" \/ ~p.ok THEN Fail
                             ELSE Ok(<<id>> \o r.v)

\* a whole input: nothing may follow a union
Dec(ty, b, fl) ==
    IF Sch[ty].k = "union" /\ b # <<>> THEN
        LET r == DecBlock(b, ty, 1, Len(b), fl)
            p == Items(b, 1, Len(b), <<>>)
        IN IF p.ok /\ Len(p.it) > 1 /\ r.st # "fail" THEN Fail
           ELSE IF ~p.ok THEN Fail ELSE r
    ELSE DecBlock(b, ty, 1, Len(b), fl)

-----------------------------------------------------------------------------
(* Operations: slots hold typed values *)
VARIABLES slot, ev
Slots == 0..7
None == [t |-> "", v |-> <<>>]
Keep == slot' = slot
Put(s, t, v) == slot' = [slot EXCEPT ![s] = [t |-> t, v |-> v]]

Set(e)  == Put(e.s, e.t, e.v)
Get(e)  == e.v = slot[e.s].v /\ Keep
Pack(e) == LET x == slot[e.s] IN
    /\ Keep
    /\ IF Strict(e.fl) /\ ~Conform(x.t, x.v) THEN ~e.ok
       ELSE e.ok /\ e.b = EncBody(x.t, x.v, e.fl)
Unpack(e) ==
    LET r == Dec(e.t, e.b, e.fl) IN
    /\ r.st = "ok" => e.ok /\ e.v = r.v
    /\ r.st = "fail" => ~e.ok
    /\ IF e.ok THEN Put(e.s, e.t, e.v) ELSE slot' = [slot EXCEPT ![e.s] = None]
Check(e) == e.ok = Conform(slot[e.s].t, slot[e.s].v) /\ Keep
\* one union read from a stream that goes on
Multi(e) ==
    LET p == Items(e.b, 1, Len(e.b), <<>>)
        t0 == e.b[1] % 32
        tl == IF t0 < 30 THEN 0 ELSE t0 - 29
        x == IF Len(e.b) < 1 + tl THEN WireBad ELSE WireVal(e.b, 2 + tl, Len(e.b), e.b[1] \div 32)
        r == IF x.ok THEN DecBlock(e.b, e.t, 1, x.next - 1, 0) ELSE Fail
    IN /\ Keep
       /\ r.st = "fail" => ~e.ok
       /\ r.st = "ok" => /\ e.ok /\ e.v = r.v /\ e.used = x.next - 1
                         /\ e.sok /\ e.sused = x.next - 1
                         /\ e.flen = x.next - 1

Step(e) ==
    CASE e.op = "set" -> Set(e) [] e.op = "get" -> Get(e) [] e.op = "pack" -> Pack(e)
      [] e.op = "unpack" -> Unpack(e) [] e.op = "check" -> Check(e) [] e.op = "multi" -> Multi(e)
      [] OTHER -> FALSE
=============================================================================
