-------------------------------- MODULE Hat --------------------------------
(* A paged store: sorted maps from 32 bit keys to values (tries and bitmaps),*)
(* blocks of memory, snapshots of the whole, and recovery.  Keys are shifted *)
(* so that their order is the order of signed integers.                      *)
(*   objs[o] = [kind, nul, m]  m: the present entries, <<key, value>>        *)
(*   In an object whose entries cannot be null an entry is present iff its   *)
(*   value is not zero; a nullable one also holds entries of value zero.     *)
(*   ens[e] = [o, k, end]      enumerators: the entry they stand on          *)
(*   mem[i] = [sz, t]          blocks and the content last written           *)
(*   saved                     what the snapshots hold, by number            *)
(*   done, going               last completed snapshot, the one under way    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES objs, ens, mem, saved, done, going, num, ev
vars == <<objs, ens, mem, saved, done, going, num, ev>>
None == <<>>
(* evaluates a state predicate at once *)
Is(p) == p = TRUE
Nothing == [objs |-> <<>>, mem |-> <<>>]
Init == /\ objs = None /\ ens = None /\ mem = None /\ saved = (0 :> Nothing)
        /\ done = 0 /\ going = 0 /\ num = 0 /\ ev = [op |-> "init"]
Reset == /\ objs' = None /\ ens' = None /\ mem' = None /\ saved' = (0 :> Nothing)
         /\ done' = 0 /\ going' = 0 /\ num' = 0
Store == UNCHANGED <<mem, saved, done, going, num>>
Hold == UNCHANGED <<objs, ens>> /\ Store
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Keep(f, o) == [x \in {y \in DOMAIN f : f[y].o # o} |-> f[x]]
Has(o) == o \in DOMAIN objs
M(o) == objs[o].m
Upd(o, mm) == \E m \in {mm} : objs' = [objs EXCEPT ![o].m = m] /\ UNCHANGED ens /\ Store

New(o, kind, nul) == /\ ~Has(o) /\ objs' = Put(objs, o, [kind |-> kind, nul |-> nul, m |-> {}])
                     /\ UNCHANGED ens /\ Store
Destroy(o) == /\ Has(o) /\ objs' = Del(objs, {o}) /\ ens' = Keep(ens, o) /\ Store
Clear(o) == /\ Has(o) /\ Upd(o, {})

(* bulk updates *)
Token(o, t, i) == IF objs[o].kind = "bm" THEN 1 ELSE ((t + i) % 250) + 1
Range(k0, step, n) == {k0 + i * step : i \in 0..(n - 1)}
Fill(o, k0, step, n, t) ==
    /\ Has(o)
    /\ \E S \in {Range(k0, step, n)} :
       Upd(o, {p \in M(o) : p[1] \notin S} \cup {<<k0 + i * step, Token(o, t, i)>> : i \in 0..(n - 1)})
Unfill(o, k0, step, n) == /\ Has(o) /\ \E S \in {Range(k0, step, n)} : Upd(o, {p \in M(o) : p[1] \notin S})

(* single entries; state of an entry: -1 null, otherwise its value *)
At(o, kk) == UNION {{p[2] : p \in {q \in M(o) : q[1] = k}} : k \in {kk}}
In(o, k) == At(o, k) # {}
Val(o, k) == IF In(o, k) THEN CHOOSE v \in At(o, k) : TRUE ELSE 0
Null(o, k) == objs[o].nul /\ ~In(o, k)
State(o, k) == IF Null(o, k) THEN 2 ELSE Val(o, k)
Without(o, kk) == UNION {{p \in M(o) : p[1] # k} : k \in {kk}}
With(o, k, v) == Without(o, k) \cup {<<k, v>>}
Get(o, k, v, null) == /\ Has(o) /\ v = Val(o, k) /\ null = Null(o, k) /\ Hold
Set(o, k, v, r) ==
    /\ Has(o)
    /\ IF objs[o].kind = "bm" THEN r = State(o, k) /\ Upd(o, With(o, k, 1)) ELSE Upd(o, With(o, k, v))
(* sets the value to zero and gives the former one *)
Set0(o, k, v, r) ==
    /\ Has(o)
    /\ IF objs[o].kind = "bm" THEN r = State(o, k) ELSE v = -3 \/ v = Val(o, k)
    /\ IF objs[o].nul THEN Upd(o, With(o, k, 0)) ELSE Upd(o, Without(o, k))
Rem(o, k, v, r) ==
    /\ Has(o)
    /\ IF objs[o].kind = "bm" THEN r = State(o, k)
       ELSE r = (IF In(o, k) THEN 1 ELSE 0) /\ (r = 1 => v = Val(o, k))
    /\ Upd(o, Without(o, k))

(* enumerators stand on the first entry at or after a bound *)
Stands(o, lo, e) == \E m \in {M(o)}, b \in {lo}, k \in {e.k} :
    IF e.end THEN \A p \in m : p[1] < b
    ELSE /\ \E p \in m : p[1] = k /\ (objs[o].kind = "bm" => p[2] = e.v)
         /\ k >= b
         /\ \A p \in m : p[1] >= k \/ p[1] < b
Stand(e, o, x) == ens' = Put(ens, e, [o |-> o, k |-> x.k, end |-> x.end]) /\ UNCHANGED objs /\ Store
TopKey == 2147483647
Enum(e, o, from, x) == /\ Has(o) /\ Is(Stands(o, from, x)) /\ Stand(e, o, x)
After(o, k, x) == IF k = TopKey THEN x.end ELSE Stands(o, k + 1, x)
Next_(e, x) == LET n == ens[e] IN /\ ~n.end /\ Is(After(n.o, n.k, x)) /\ Stand(e, n.o, x)
Goto(e, to, x) == LET n == ens[e] IN /\ ~n.end /\ to >= n.k /\ Is(Stands(n.o, to, x)) /\ Stand(e, n.o, x)
ValueAt(e, v) == LET n == ens[e] IN /\ ~n.end /\ v = Val(n.o, n.k) /\ Hold
(* a whole walk, with removal of the visited keys that are b modulo a (of   *)
(* the unshifted key)                                                       *)
Lists(o, l) == /\ {l[i] : i \in DOMAIN l} = M(o)
               /\ \A i \in 2..Len(l) : l[i - 1][1] < l[i][1]
Dump(o, l) == Has(o) /\ Is(Lists(o, l)) /\ Hold
(* k + 2^31 modulo a, for a small a *)
Mod(k, a) == LET h == ((1073741824 % a) * 2) % a IN ((k % a) + h) % a
Sweep(o, a, b, l) == /\ Has(o) /\ Is(Lists(o, l)) /\ Upd(o, {p \in M(o) : Mod(p[1], a) # b})
Check(o, r) == Has(o) /\ r = 0 /\ Hold
Stats(o, e) == /\ Has(o) /\ e.m1 = e.m2 /\ e.v1 = e.v2
               /\ (e.cnt >= 0 => e.cnt = Cardinality(M(o))) /\ Hold

(* blocks *)
Alloc(i, sz, t, fits, h) ==
    /\ i \notin DOMAIN mem /\ fits /\ \A j \in DOMAIN mem : mem[j].h # h
    /\ mem' = Put(mem, i, [sz |-> sz, t |-> t, h |-> h])
    /\ UNCHANGED <<objs, ens, saved, done, going, num>>
Realloc(i, sz, t, kept, fits, h) ==
    /\ i \in DOMAIN mem /\ kept /\ fits /\ \A j \in DOMAIN mem \ {i} : mem[j].h # h
    /\ h > 0 => h = mem[i].h
    /\ mem' = [mem EXCEPT ![i] = [sz |-> sz, t |-> t, h |-> h]]
    /\ UNCHANGED <<objs, ens, saved, done, going, num>>
Read(i, t, sz, ok) == /\ i \in DOMAIN mem /\ ok /\ t = mem[i].t /\ sz = mem[i].sz /\ Hold
Write(i, t, ok) == /\ i \in DOMAIN mem /\ ok /\ mem' = [mem EXCEPT ![i].t = t]
                   /\ UNCHANGED <<objs, ens, saved, done, going, num>>
Free(i, ok) == /\ i \in DOMAIN mem /\ ok /\ mem' = Del(mem, {i}) /\ UNCHANGED <<objs, ens, saved, done, going, num>>
Leaks(r) == r = 0 /\ Hold
Gc(r) == r = 0 /\ ens' = None /\ UNCHANGED objs /\ Store

(* snapshots: the content at the moment of the request *)
Snap(n) == /\ going = 0 /\ n = num + 1 /\ going' = n /\ num' = n
           /\ saved' = [x \in {done, n} |-> IF x = n THEN [objs |-> objs, mem |-> mem] ELSE saved[x]]
           /\ UNCHANGED <<objs, ens, mem, done>>
Snapped(n) == /\ going # 0 /\ n = going /\ done' = n /\ going' = 0
              /\ saved' = [x \in {n} |-> saved[x]] /\ UNCHANGED <<objs, ens, mem, num>>
(* reopening gives exactly a snapshot: the last completed one or, when the  *)
(* program died with one under way, possibly that one                       *)
Reopen(crash, ok, n) ==
    /\ ok
    /\ IF crash THEN n = done \/ (going # 0 /\ n = going) ELSE going = 0 /\ n = done
    /\ objs' = saved[n].objs /\ mem' = saved[n].mem /\ ens' = None
    /\ done' = n /\ going' = 0 /\ num' = n /\ saved' = [x \in {n} |-> saved[x]]
=============================================================================
