--------------------------------- MODULE Log ---------------------------------
(* A tree of loggers whose levels are set by name, at any time, and the       *)
(* buffers that capture what they emit.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids,        \* loggers; the root is -1
          Dflt        \* level of the root unless set
VARIABLES lg,         \* per logger: [p, n, dl, ds, st, at]; at: known to the tree
          lev,        \* per full name: [lv, rec, si], the levels set by name
          bufs        \* stack of buffers: [u, f, m]
lvars == <<lg, lev, bufs>>
Root == -1
Live == DOMAIN lg
INHERITS == -1
UNDEF == -3
CRIT == 2
TRACE == 8

LInit == lg = <<>> /\ lev = <<>> /\ bufs = <<>>

RECURSIVE Full(_)
Full(i) == IF i = Root THEN "" ELSE IF lg[i].p = Root THEN lg[i].n ELSE Full(lg[i].p) \o "/" \o lg[i].n
Kids(i) == {k \in Live : lg[k].p = i}
Attached == {i \in Live : lg[i].at}
Set(i) == Full(i) \in DOMAIN lev /\ lev[Full(i)].lv >= 0
RECURSIVE Forced(_)
\* a logger without a level of its own takes that of a parent set recursively
Forced(i) == IF Set(i) THEN lev[Full(i)].rec
             ELSE i # Root /\ Forced(lg[i].p)
RECURSIVE Level(_)
Level(i) == IF Set(i) THEN lev[Full(i)].lv
            ELSE IF i = Root THEN Dflt
            ELSE IF Forced(lg[i].p) \/ lg[i].dl = INHERITS THEN Level(lg[i].p)
            ELSE lg[i].dl
Silent(i) == IF Full(i) \in DOMAIN lev THEN lev[Full(i)].si ELSE i # Root /\ lg[i].ds
Max2(a, b) == IF a < b THEN b ELSE a
Seen(i) == Max2(Level(i), CRIT)

RECURSIVE Ups(_)
Ups(i) == IF i = Root THEN {} ELSE {i} \cup Ups(lg[i].p)
\* using a logger makes it, and those above, known by name
Use(i) == [k \in Live |-> IF k \in Ups(i) THEN [lg[k] EXCEPT !.at = TRUE] ELSE lg[k]]

LNew(i, p, n, dl, si, st) ==
    /\ i \notin Live /\ (p = Root \/ p \in Live)
    /\ \A k \in Kids(p) : lg[k].n # n
    /\ LET nl == (i :> [p |-> p, n |-> n, dl |-> dl, ds |-> si, st |-> st, at |-> ~ st]) @@ lg
       IN lg' = IF st THEN nl ELSE [k \in DOMAIN nl |-> IF p # Root /\ k \in Ups(p) THEN [nl[k] EXCEPT !.at = TRUE] ELSE nl[k]]
    /\ UNCHANGED <<lev, bufs>>
RECURSIVE Under(_)
Under(i) == {i} \cup UNION {Under(k) : k \in Kids(i)}
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
\* a logger that goes forgets its level; those attached below must be static
LWipe(i) == /\ i \in Live
            /\ \A k \in Under(i) \ {i} : lg[k].st
            /\ lev' = Without(lev, {Full(k) : k \in Under(i) \cap Attached})
            /\ lg' = Without(lg, Under(i))
            /\ UNCHANGED bufs
ByName(n) == IF n = "" THEN {Root} ELSE {i \in Attached : Full(i) = n}
LFind(n, r) == /\ (IF ByName(n) = {} THEN r = -2 ELSE r \in ByName(n))
               /\ UNCHANGED lvars
\* r: the level before; a level set for a name that nobody has yet is kept for it
LSet(n, v, rec, si, r) ==
    LET lv == IF v = -2 THEN Dflt ELSE v
    IN /\ (IF ByName(n) = {} THEN r = UNDEF ELSE \E i \in ByName(n) : r = Level(i))
       /\ lev' = IF lv = UNDEF THEN Without(lev, {n}) ELSE (n :> [lv |-> lv, rec |-> rec, si |-> si]) @@ lev
       /\ UNCHANGED <<lg, bufs>>
LLevel(i, r, v, ok) == /\ lg' = Use(i) /\ r = Seen(i) /\ ok = (Seen(i) >= v)
                       /\ UNCHANGED <<lev, bufs>>
\* --- what a log call emits ---
RECURSIVE Lines(_, _, _)
Lines(m, a, i) == IF i > Len(m) THEN <<SubSeq(m, a, Len(m))>>
                  ELSE IF m[i] = 10 THEN <<SubSeq(m, a, i - 1)>> \o Lines(m, i + 1, i + 1)
                  ELSE Lines(m, a, i + 1)
Top == bufs[Len(bufs)]
LLog(i, v, ml, m, r, h) ==
    LET txt == IF ml THEN Lines(m, 1, 1) ELSE <<m>>
        out == IF v <= Seen(i) THEN [k \in 1..Len(txt) |-> <<Full(i), v, Silent(i), txt[k]>>] ELSE <<>>
        kept == Len(bufs) = 0 \/ v <= Top.f
    IN /\ r = (IF v <= 4 THEN -1 ELSE 0)
       /\ h = (IF kept /\ (Len(bufs) = 0 \/ Top.u) THEN out ELSE <<>>)
       /\ bufs' = IF Len(bufs) > 0 /\ kept THEN [bufs EXCEPT ![Len(bufs)].m = @ \o out] ELSE bufs
       /\ lg' = Use(i)
       /\ UNCHANGED lev
LBStart(u, f) == /\ bufs' = Append(bufs, [u |-> u /\ (Len(bufs) = 0 \/ Top.u), f |-> f, m |-> <<>>])
                 /\ UNCHANGED <<lg, lev>>
LBStop(b) == /\ Len(bufs) > 0 /\ b = Top.m
             /\ bufs' = SubSeq(bufs, 1, Len(bufs) - 1)
             /\ UNCHANGED <<lg, lev>>
=============================================================================
