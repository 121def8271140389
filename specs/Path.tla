-------------------------------- MODULE Path --------------------------------
(* Paths. A path is a sequence of bytes; what it denotes is a walk in the    *)
(* tree of directories. Registers hold paths, and every operation replaces a *)
(* path by another one; the model says exactly which.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
VARIABLES regs, cwd, ev
vars == <<regs, cwd, ev>>
NR == 3
PMAX == 4096
Home == <<47, 104, 111, 109, 101, 47, 118, 112>>      \* /home/vp
Slash == 47
Dot == 46
Tilde == 126
D1 == <<Dot>>
D2 == <<Dot, Dot>>
Sub(p, a, b) == SubSeq(p, a, b)
Drop(p, n) == SubSeq(p, n + 1, Len(p))
Take(p, n) == SubSeq(p, 1, IF n < Len(p) THEN n ELSE Len(p))
Abs(p) == p # <<>> /\ p[1] = Slash
EndsSlash(p) == p # <<>> /\ p[Len(p)] = Slash

(* the components of a path, empty ones left out *)
Slashes(p) == SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : p[i] = Slash)
Comps(p) == LET z == <<0>> \o Slashes(p) \o <<Len(p) + 1>> IN
            SelectSeq([k \in 1..Len(z) - 1 |-> Sub(p, z[k] + 1, z[k + 1] - 1)], LAMBDA c : c # <<>>)

(* where a walk leads, from a place above which it may climb (relative) or   *)
(* not (absolute): how many levels up, then which names down; popped says    *)
(* that the last component went back from a name                             *)
Step(abs, w, c) ==
    IF c = D1 THEN [w EXCEPT !.popped = FALSE]
    ELSE IF c = D2 THEN
        IF w.down # <<>> THEN [w EXCEPT !.down = Front(w.down), !.popped = TRUE]
        ELSE [w EXCEPT !.up = IF abs THEN 0 ELSE w.up + 1, !.popped = abs]
    ELSE [w EXCEPT !.down = Append(@, c), !.popped = FALSE]
Walk(p) == LET a == Abs(p) IN
           FoldLeft(LAMBDA w, c : Step(a, w, c), [up |-> 0, down |-> <<>>, popped |-> FALSE], Comps(p))
Place(p) == LET w == Walk(p) IN <<Abs(p), w.up, w.down>>

RECURSIVE JoinR(_, _, _)
JoinR(cs, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN cs[a]
                   ELSE LET m == (a + b) \div 2 IN JoinR(cs, a, m) \o <<Slash>> \o JoinR(cs, m + 1, b)
JoinC(cs) == JoinR(cs, 1, Len(cs))
Ups(n) == SubSeq([i \in 1..n |-> D2], 1, n)

Simplify(p, keep) ==
    LET w == Walk(p) cs == Ups(w.up) \o w.down
        c == Comps(p)
        dir == EndsSlash(p) \/ (c # <<>> /\ (Last(c) = D1 \/ w.popped))
        body == JoinC(cs)
        full == IF Abs(p) THEN <<Slash>> \o body ELSE body
    IN IF full = <<>> THEN D1
       ELSE IF full = <<Slash>> THEN full
       ELSE IF keep /\ dir THEN Append(full, Slash) ELSE full

RECURSIVE StripR(_)
StripR(p) == IF EndsSlash(p) THEN StripR(Front(p)) ELSE p
RECURSIVE StripL(_)
StripL(p) == IF Abs(p) THEN StripL(Tail(p)) ELSE p
Joined(p, s) == StripR(p) \o <<Slash>> \o StripL(s)

DirName(p) ==
    LET a == StripR(p)
        k == Slashes(a)
        d == StripR(Take(a, IF k = <<>> THEN 0 ELSE Last(k)))
    IN IF d # <<>> THEN d ELSE IF Abs(p) THEN <<Slash>> ELSE D1
BaseName(p) == LET c == Comps(p) IN IF c = <<>> THEN <<>> ELSE Last(c)
FileAt(p) == LET k == Slashes(p) IN IF k = <<>> THEN 0 ELSE Last(k)
ExtAt(p) == LET f == FileAt(p)
                nd == {i \in f + 1..Len(p) : p[i] # Dot}
                from == IF nd = {} THEN Len(p) + 1 ELSE Min(nd)
                k == {i \in from..Len(p) : p[i] = Dot}
            IN IF k = {} THEN -1 ELSE Max(k) - 1
Safe(p) == ~Abs(p) /\ SelectSeq(Comps(p), LAMBDA c : c = D2) = <<>>

(* the path a suffix denotes from a prefix *)
Extended(p, s) ==
    IF Abs(s) THEN s
    ELSE IF Len(s) >= 2 /\ s[1] = Tilde /\ s[2] = Slash THEN Home \o Tail(s)
    ELSE IF p = <<>> THEN s
    ELSE IF EndsSlash(p) THEN p \o s ELSE p \o <<Slash>> \o s

(* from one place to another: climb out of the directory one is in to what   *)
(* is common with the directory of the target, then go down; the name alone  *)
(* when they are the same place                                              *)
LCP(a, b) == LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                 k == SelectSeq([i \in 1..m |-> i], LAMBDA i : a[i] # b[i])
             IN IF k = <<>> THEN m ELSE k[1] - 1
Full(p) == IF Abs(p) THEN p ELSE Extended(cwd, p)
RelDir(f) == LET s == Simplify(f, TRUE) w == Walk(f) IN
             IF EndsSlash(s) \/ w.down = <<>> THEN w.down ELSE Front(w.down)
Relative(from, to) ==
    LET base == RelDir(from) lt == Walk(to).down
        same == Walk(from).down = lt
        tdir == IF lt = <<>> THEN <<>> ELSE Front(lt)
        k == LCP(base, tdir)
        nu == Len(base) - k
        ups == IF nu = 0 THEN <<>> ELSE JoinC(Ups(nu)) \o <<Slash>>
        r == IF same THEN (IF lt = <<>> THEN <<>> ELSE Last(lt)) ELSE ups \o JoinC(Drop(lt, k))
    IN IF r = <<>> THEN D1 ELSE r
RelFails(from, to) == Len(from) >= PMAX \/ Len(to) >= PMAX \/ Len(Relative(from, to)) >= PMAX

(* what a bounded copy leaves in a buffer of n bytes *)
Cut(p, n) == Take(p, n - 1)

Init == regs = [i \in 0..NR - 1 |-> <<>>] /\ cwd = <<Slash>> /\ ev = <<>>
Put(r, p) == regs' = [regs EXCEPT ![r] = p] /\ cwd' = cwd
Set(e) == Put(e.r, e.p)
Cwd(e) == cwd' = e.p /\ regs' = regs
DoSimplify(e) ==
    LET p == regs[e.r] IN
    IF p = <<>> THEN e.n < 0 /\ e.p = <<>> /\ Put(e.r, <<>>)
    ELSE LET q == Simplify(p, e.keep) IN
         e.p = q /\ e.n = Len(q) /\ e.fit /\ Put(e.r, q)
DoJoin(e) == LET q == Joined(regs[e.r], e.s) IN
             e.n = Len(q) /\ e.p = Cut(q, e.len) /\ Put(e.r, Cut(q, e.len))
Copied(e, q) == /\ e.n = Len(q)
                /\ IF e.len > 0 THEN e.p = Cut(q, e.len) /\ Put(e.r, Cut(q, e.len))
                   ELSE e.same /\ UNCHANGED <<regs, cwd>>
DoDirName(e) == Copied(e, DirName(regs[e.r]))
DoBaseName(e) == Copied(e, BaseName(regs[e.r]))
DoDirPart(e) == Copied(e, Take(regs[e.r], FileAt(regs[e.r])))
DoParts(e) ==
    LET p == regs[e.r] x == ExtAt(p) IN
    /\ e.file = FileAt(p)
    /\ e.ext = x
    /\ e.ext0 = IF x < 0 THEN Len(p) ELSE x
    /\ e.safe = Safe(p)
    /\ UNCHANGED <<regs, cwd>>
DoExtend(e) ==
    LET q == Extended(regs[e.r], e.s) IN
    IF Len(q) >= PMAX THEN e.n = -1 /\ UNCHANGED <<regs, cwd>>
    ELSE e.n = Len(q) /\ e.p = q /\ Put(e.r, q)
DoRelative(e) ==
    LET f == Full(regs[e.r]) t == Full(regs[e.to]) IN
    IF RelFails(f, t) THEN e.n = -1 /\ UNCHANGED <<regs, cwd>>
    ELSE LET q == Relative(f, t) IN e.n = Len(q) /\ e.p = q /\ Put(e.r, q)
=============================================================================
