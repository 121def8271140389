------------------------------ MODULE IopVal ------------------------------
(* Operations on IOP values: copies, comparisons, orders, hashes, visits. *)
EXTENDS Iop

RealOf(ty, v) == IF Sch[ty].k = "class" THEN ById(ty, v[1]) ELSE ty

-----------------------------------------------------------------------------
(* The bytes given to the hash function *)
HSkipMissing(fl) == fl % 2 = 1
HSkipDef(fl) == (fl \div 2) % 2 = 1
HNoId(fl) == (fl \div 8) % 2 = 1
RECURSIVE HAgg(_, _, _), HFields(_, _, _, _)
HVal(ty, v, fl) == CASE ty = "void" -> <<>>
                     [] IsStr(ty) -> Le(Len(v), 4) \o v
                     [] IsAgg(ty) -> HAgg(ty, v, fl)
                     [] OTHER -> v
HField(f, name, vs, fl) ==
    IF \/ HSkipMissing(fl) /\ f.r \in {"opt", "rep"} /\ vs = <<>>
       \/ HSkipDef(fl) /\ f.r = "def" /\ vs[1] = f.d[1]
    THEN <<>>
    ELSE Le(f.tag, 2) \o name
         \o (IF f.r = "rep" THEN Le(Len(vs), 4) ELSE <<>>)
         \o (IF f.r = "opt" /\ vs # <<>> /\ f.ty = "void" THEN <<1>>
             ELSE IF f.r = "opt" /\ vs # <<>> /\ f.ty = "bool" THEN <<vs[1][1]>>
             ELSE FlattenSeq([i \in 1..Len(vs) |-> HVal(f.ty, vs[i], fl)]))
HFields(fs, names, v, fl) == FlattenSeq([i \in 1..Len(fs) |-> HField(fs[i], names[i], v[i], fl)])
HAgg(ty, v, fl) ==
    CASE Sch[ty].k = "struct" -> HFields(Sch[ty].f, FdName[ty], v, fl)
      [] Sch[ty].k = "union" -> HField(Sch[ty].f[v[1]], FdName[ty][v[1]], <<v[2]>>, fl)
      [] OTHER -> LET ch == Chain(ById(ty, v[1])) IN
           (IF HNoId(fl) THEN <<>> ELSE Le(v[1], 2))
           \o FlattenSeq([i \in 1..Len(ch) |-> HFields(Sch[ch[i]].f, FdName[ch[i]], v[i + 1], fl)])

-----------------------------------------------------------------------------
(* Visits.  acc: number of calls, calls, what the last call answered. *)
RECURSIVE DecDigits(_)
DecDigits(n) == IF n < 10 THEN <<48 + n>> ELSE DecDigits(n \div 10) \o <<48 + (n % 10)>>
Root6 == <<60, 114, 111, 111, 116, 62>>
Q == <<63>>
SubPath(path, name) == IF path = <<>> THEN name ELSE path \o <<46>> \o name
Idx(path, i) == path \o <<91>> \o DecDigits(i) \o <<93>>

\* c: [mode, fast, skip, stop]
Call(c, acc, item) ==
    LET n == acc.n + 1 IN
    [n |-> n, o |-> Append(acc.o, item), r |-> IF n = c.stop THEN "stop" ELSE IF n <= 64 /\ n \in c.skip THEN "skip" ELSE "go"]
Go(acc) == [acc EXCEPT !.r = "go"]
PathShown(c, p) == IF c.fast THEN Q ELSE IF p = <<>> THEN Root6 ELSE p

RECURSIVE VAgg(_, _, _, _, _), VFields(_, _, _, _, _, _), VEls(_, _, _, _, _, _), VLevels(_, _, _, _, _, _)
\* one field
VField(c, lev, i, vs, path, acc) ==
    LET f == Sch[lev].f[i]
        p == SubPath(path, FdName[lev][i])
        a == IF c.mode = "field" THEN Call(c, acc, <<PathShown(c, p), TyName[lev], FdName[lev][i]>>) ELSE acc
    IN IF a.r = "stop" THEN a
       ELSE IF a.r = "skip" \/ ~IsAgg(f.ty) THEN Go(a)
       ELSE VEls(c, f, vs, p, 1, a)
VEls(c, f, vs, p, i, acc) ==
    IF i > Len(vs) THEN acc
    ELSE LET a == VAgg(c, f.ty, vs[i], IF f.r = "rep" THEN Idx(p, i - 1) ELSE p, acc) IN
         IF a.r = "stop" THEN a ELSE VEls(c, f, vs, p, i + 1, a)
VFields(c, lev, v, path, i, acc) ==
    IF i > Len(Sch[lev].f) THEN acc
    ELSE LET a == VField(c, lev, i, v[i], path, acc) IN
         IF a.r = "stop" THEN a ELSE VFields(c, lev, v, path, i + 1, a)
\* the fields of the ancestors first
VLevels(c, ch, v, path, k, acc) ==
    IF k = 0 THEN acc
    ELSE LET a == VFields(c, ch[k], v[k + 1], path, 1, acc) IN
         IF a.r = "stop" THEN a ELSE VLevels(c, ch, v, path, k - 1, a)
VAgg(c, ty, v, path, acc) ==
    LET cls == Sch[ty].k = "class"
        real == RealOf(ty, v)
        a == IF c.mode = "st" \/ (c.mode = "obj" /\ cls) THEN Call(c, acc, <<PathShown(c, path), TyName[real], Q>>) ELSE acc
    IN IF a.r = "stop" THEN a
       ELSE IF a.r = "skip" THEN Go(a)
       ELSE IF cls THEN VLevels(c, Chain(real), v, path, Len(Chain(real)), a)
       ELSE IF Sch[ty].k = "union" THEN VField(c, ty, v[1], <<v[2]>>, path, a)
       ELSE VFields(c, ty, v, path, 1, a)

ModeOf(m) == CASE m \in {"field", "fieldc", "fieldf", "fieldcf"} -> "field"
               [] m \in {"st", "stc", "stf", "stcf"} -> "st" [] OTHER -> "obj"
Visit(e) ==
    LET x == slot[e.s]
        c == [mode |-> ModeOf(e.m), fast |-> e.m \in {"fieldf", "fieldcf", "stf", "stcf", "objf"}, skip |-> ToSet(e.skip), stop |-> e.stop]
        r == VAgg(c, x.t, x.v, <<>>, [n |-> 0, o |-> <<>>, r |-> "go"])
    IN /\ e.o = r.o
       /\ e.res = (IF r.r = "stop" THEN -e.code ELSE 0)
       /\ Keep

-----------------------------------------------------------------------------
(* Values equal but for the case of their texts: the arbitrary order does not tell them apart *)
Low(b) == [i \in 1..Len(b) |-> IF b[i] \in 65..90 THEN b[i] + 32 ELSE b[i]]
RECURSIVE FoldF(_, _), FoldA(_, _)
FoldV(ty, v) == IF ty \in {"string", "xml"} THEN Low(v) ELSE IF IsAgg(ty) THEN FoldA(ty, v) ELSE v
FoldF(fs, v) == [i \in 1..Len(fs) |-> [j \in 1..Len(v[i]) |-> FoldV(fs[i].ty, v[i][j])]]
FoldA(ty, v) == CASE Sch[ty].k = "struct" -> FoldF(Sch[ty].f, v)
                  [] Sch[ty].k = "union" -> <<v[1], FoldV(Sch[ty].f[v[1]].ty, v[2])>>
                  [] OTHER -> LET ch == Chain(ById(ty, v[1])) IN <<v[1]>> \o [i \in 1..Len(ch) |-> FoldF(Sch[ch[i]].f, v[i + 1])]

Hash(e) == LET x == slot[e.s] IN e.b = HAgg(x.t, x.v, e.fl) /\ e.same /\ Keep
Eq(e) == LET q == slot[e.a].v = slot[e.b].v IN e.eq = q /\ e.diff = ~q /\ e.msg = ~q /\ Keep
Cmp(e) ==
    LET x == slot[e.a] IN
    /\ e.ab = -e.ba
    /\ (e.ab = 0) = (FoldA(x.t, x.v) = FoldA(x.t, slot[e.b].v))
    /\ (e.ab <= 0 /\ e.bc <= 0) => (e.ac <= 0 /\ ((e.ab < 0 \/ e.bc < 0) => e.ac < 0))
    /\ (e.ab >= 0 /\ e.bc >= 0) => (e.ac >= 0 /\ ((e.ab > 0 \/ e.bc > 0) => e.ac > 0))
    /\ Keep
Dup(e) == e.v = slot[e.s].v /\ Put(e.d, slot[e.s].t, slot[e.s].v)

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Perm(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
\* canonical order of one field
RECURSIVE SeqLt(_, _)
SeqLt(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE SeqLt(Tail(a), Tail(b))
\* doubles: by sign then bits
DLt(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE IF Neg(a) THEN ULt(b, a) ELSE ULt(a, b)
FLt(ty, a, b) == CASE ty = "double" -> DLt(a, b)
                   [] IsInt(ty) -> (IF Unsigned(ty) THEN ULt(a, b) ELSE SLt(a, b))
                   [] ty = "bytes" -> SeqLt(a, b)
                   [] OTHER -> FALSE
\* a may be before b
MayPrecede(ty, a, b, fl) ==
    LET rev == fl % 2 = 1
        nullf == fl \div 2 = 1 IN
    IF a = <<>> /\ b = <<>> THEN TRUE
    ELSE IF a = <<>> THEN nullf
    ELSE IF b = <<>> THEN ~nullf
    ELSE ~(IF rev THEN FLt(ty, a[1], b[1]) ELSE FLt(ty, b[1], a[1]))
Sort(e) ==
    /\ Keep
    /\ e.ok
    /\ Perm(e.o, [i \in 1..Len(e.in) |-> slot[e.in[i]].v])
    /\ e.m # "f" => \A i \in 1..Len(e.c) : e.c[i] <= 0
    /\ e.m = "f" => LET f == Sch[e.t].f[e.k] IN
          \A i \in 1..Len(e.o) - 1 : MayPrecede(f.ty, e.o[i][e.k], e.o[i + 1][e.k], e.fl)
Filter(e) ==
    LET vs == {slot[e.vals[i]].v[e.k][1] : i \in 1..Len(e.vals)}
        in == [i \in 1..Len(e.in) |-> slot[e.in[i]].v]
    IN /\ Keep
       /\ e.ok
       /\ e.o = SelectSeq(in, LAMBDA v : (v[e.k] # <<>> /\ v[e.k][1] \in vs) # e.inv)

VStep(e) ==
    CASE e.op = "visit" -> Visit(e) [] e.op = "hash" -> Hash(e) [] e.op = "eq" -> Eq(e) [] e.op = "cmp" -> Cmp(e)
      [] e.op = "dup" -> Dup(e) [] e.op = "sort" -> Sort(e) [] e.op = "filter" -> Filter(e)
      [] OTHER -> Step(e)
=============================================================================
