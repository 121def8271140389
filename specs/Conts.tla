-------------------------------- MODULE Conts --------------------------------
(* Linked lists, rings, heaps and ordered trees, as the sequences and sets they stand for. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
VARIABLES dl,     \* 0..1 -> sequence of nodes: doubly linked lists
          hl,     \* 0..1 -> sequence of nodes: head/tail lists
          rg,     \* ring: sequence of values
          hp,     \* heap: element -> key
          hmax,   \* ... a max heap
          tr,     \* tree: set of <<key, node>>
          ev
CONSTANT Nodes
vars == <<dl, hl, rg, hp, hmax, tr, ev>>
Lists == {0, 1}
Init == /\ dl = [l \in Lists |-> <<>>] /\ hl = [l \in Lists |-> <<>>] /\ rg = <<>>
        /\ hp = <<>> /\ hmax = FALSE /\ tr = {} /\ ev = "init"
Without(s, e) == SelectSeq(s, LAMBDA x : x # e)
Sub(s, a, b) == SubSeq(s, a, b)
Index(s, e) == CHOOSE i \in DOMAIN s : s[i] = e
InsAt(s, i, e) == Sub(s, 1, i) \o <<e>> \o Sub(s, i + 1, Len(s))
Of(ls, e) == CHOOSE l \in Lists : e \in Range(ls[l])
Used(ls) == Range(ls[0]) \cup Range(ls[1])

(* ---- doubly linked lists ---- *)
KD == UNCHANGED <<hl, rg, hp, hmax, tr>>
(* all that can be read back of the two lists: forwards, backwards, the predicates, who is in none *)
DSees(d, e) ==
    /\ e.f0 = d[0] /\ e.b0 = Reverse(d[0]) /\ e.f1 = d[1] /\ e.b1 = Reverse(d[1])
    /\ LET Q(s) == <<IF s = <<>> THEN 1 ELSE 0, IF Len(s) = 1 THEN 1 ELSE 0, IF Len(s) <= 1 THEN 1 ELSE 0>>
       IN e.q0 = Q(d[0]) /\ e.q1 = Q(d[1])
    /\ Range(e.det) = Nodes \ Used(d)
DReset == dl' = [l \in Lists |-> <<>>] /\ KD
DAdd(l, e) == e \notin Used(dl) /\ dl' = [dl EXCEPT ![l] = <<e>> \o @] /\ KD
DTail(l, e) == e \notin Used(dl) /\ dl' = [dl EXCEPT ![l] = Append(@, e)] /\ KD
DAfter(e, n) == /\ e \in Used(dl) /\ n \notin Used(dl)
                /\ LET l == Of(dl, e) IN dl' = [dl EXCEPT ![l] = InsAt(@, Index(@, e), n)]
                /\ KD
DBefore(e, n) == /\ e \in Used(dl) /\ n \notin Used(dl)
                 /\ LET l == Of(dl, e) IN dl' = [dl EXCEPT ![l] = InsAt(@, Index(@, e) - 1, n)]
                 /\ KD
DRemove(e) == dl' = [l \in Lists |-> Without(dl[l], e)] /\ KD
DPop(l, r) == dl[l] # <<>> /\ r = dl[l][1] /\ dl' = [dl EXCEPT ![l] = Tail(@)] /\ KD
DMove(l, e) == LET d == [k \in Lists |-> Without(dl[k], e)]
               IN e \in Used(dl) /\ dl' = [d EXCEPT ![l] = <<e>> \o @] /\ KD
DMoveTail(l, e) == LET d == [k \in Lists |-> Without(dl[k], e)]
                   IN e \in Used(dl) /\ dl' = [d EXCEPT ![l] = Append(@, e)] /\ KD
DSplice(d, s) == d # s /\ dl' = [dl EXCEPT ![d] = dl[s] \o @, ![s] = <<>>] /\ KD
DSpliceTail(d, s) == d # s /\ dl' = [dl EXCEPT ![d] = @ \o dl[s], ![s] = <<>>] /\ KD
DCut(s, e, d) ==
    /\ d # s /\ dl[d] = <<>>
    /\ LET i == IF e = -1 THEN 0 ELSE Index(dl[s], e)
       IN dl' = [dl EXCEPT ![d] = Sub(dl[s], 1, i), ![s] = Sub(dl[s], i + 1, Len(dl[s]))]
    /\ KD
DStay == UNCHANGED dl /\ KD
DFilter(l, how, mod, seen) ==
    /\ seen = (IF how = 1 THEN Reverse(dl[l]) ELSE dl[l])
    /\ dl' = [dl EXCEPT ![l] = SelectSeq(@, LAMBDA x : (x % mod) # 0)] /\ KD
DWalk(l, e, how, first, last, seen) ==
    LET s == dl[l] i == Index(s, e) n == Len(s) IN
    /\ e \in Range(s)
    /\ first = (i = 1) /\ last = (i = n)
    /\ seen = (CASE how = 0 -> Sub(s, i, n)
                 [] how \in {1, 4} -> Sub(s, i + 1, n)
                 [] how = 2 -> Reverse(Sub(s, 1, i))
                 [] how = 3 -> Reverse(Sub(s, 1, i - 1)))
    /\ DStay

(* ---- head/tail lists ---- *)
KH == UNCHANGED <<dl, rg, hp, hmax, tr>>
HSees(h, e) ==
    /\ e.f0 = h[0] /\ e.f1 = h[1]
    /\ e.e0 = (h[0] = <<>>) /\ e.e1 = (h[1] = <<>>)
    /\ e.t0 = (IF h[0] = <<>> THEN -1 ELSE Last(h[0])) /\ e.t1 = (IF h[1] = <<>> THEN -1 ELSE Last(h[1]))
    /\ e.h0 = (IF h[0] = <<>> THEN -1 ELSE h[0][1]) /\ e.h1 = (IF h[1] = <<>> THEN -1 ELSE h[1][1])
HReset == hl' = [l \in Lists |-> <<>>] /\ KH
HAdd(l, e) == e \notin Used(hl) /\ hl' = [hl EXCEPT ![l] = <<e>> \o @] /\ KH
HTail(l, e) == e \notin Used(hl) /\ hl' = [hl EXCEPT ![l] = Append(@, e)] /\ KH
HAfter(l, p, e) == /\ e \notin Used(hl) /\ (p = -1 \/ p \in Range(hl[l]))
                   /\ LET i == IF p = -1 THEN 0 ELSE Index(hl[l], p) IN hl' = [hl EXCEPT ![l] = InsAt(@, i, e)]
                   /\ KH
HPop(l, r) == hl[l] # <<>> /\ r = hl[l][1] /\ hl' = [hl EXCEPT ![l] = Tail(@)] /\ KH
HSplice(d, s) == d # s /\ hl' = [hl EXCEPT ![d] = hl[s] \o @, ![s] = <<>>] /\ KH
HSpliceTail(d, s) == d # s /\ hl' = [hl EXCEPT ![d] = @ \o hl[s], ![s] = <<>>] /\ KH
HMove(d, s) == d # s /\ hl' = [hl EXCEPT ![d] = hl[s], ![s] = <<>>] /\ KH
HWalk(l, e, seen) == /\ e \in Range(hl[l]) /\ seen = Sub(hl[l], Index(hl[l], e), Len(hl[l]))
                     /\ UNCHANGED hl /\ KH
HClear(l, seen) == seen = hl[l] /\ hl' = [hl EXCEPT ![l] = <<>>] /\ KH

(* ---- rings ---- *)
KR == UNCHANGED <<dl, hl, hp, hmax, tr>>
RSees(s, e) == e.map = s /\ e.ptrs = s /\ e.ents = s /\ e.gets = s
RReset == rg' = <<>> /\ KR
RPush(x) == rg' = Append(rg, x) /\ KR
RUnshift(x) == rg' = <<x>> \o rg /\ KR
RShift(ok, x) == /\ ok = (rg # <<>>) /\ (ok => x = rg[1])
                 /\ rg' = (IF ok THEN Tail(rg) ELSE rg) /\ KR
RPop(ok, x) == /\ ok = (rg # <<>>) /\ (ok => x = Last(rg))
               /\ rg' = (IF ok THEN Front(rg) ELSE rg) /\ KR
RSkip(n, ok) == /\ ok = (n \in 0..Len(rg))
                /\ rg' = (IF ok THEN Sub(rg, n + 1, Len(rg)) ELSE rg) /\ KR
RFilter(mod) == rg' = SelectSeq(rg, LAMBDA x : (x % mod) # 0) /\ KR

(* ---- heaps ---- *)
KP == UNCHANGED <<dl, hl, rg, tr>>
Before(a, b) == IF hmax THEN a > b ELSE a < b
Tops(h) == {e \in DOMAIN h : \A f \in DOMAIN h : ~Before(h[f], h[e])}
(* every element is where it was told it is, the others were told they are out, and an extreme one is on top *)
PSees(h, e) ==
    /\ Len(e.tab) = Cardinality(DOMAIN h)
    /\ Range(e.tab) = DOMAIN h
    /\ \A i \in 1..Len(e.pos) : IF (i - 1) \in DOMAIN h THEN e.pos[i] + 1 \in DOMAIN e.tab /\ e.tab[e.pos[i] + 1] = i - 1
                                                        ELSE e.pos[i] = -1
    /\ e.tab # <<>> => e.tab[1] \in Tops(h)
PReset(max) == hp' = <<>> /\ hmax' = max /\ KP
PIns(e, k) == e \notin DOMAIN hp /\ hp' = (e :> k) @@ hp /\ UNCHANGED hmax /\ KP
PFix(e, k) == e \in DOMAIN hp /\ hp' = [hp EXCEPT ![e] = k] /\ UNCHANGED hmax /\ KP
Drop(h, e) == [x \in (DOMAIN h) \ {e} |-> h[x]]
PRem(e, r) == e \in DOMAIN hp /\ r = e /\ hp' = Drop(hp, e) /\ UNCHANGED hmax /\ KP
PTake(r) == r \in Tops(hp) /\ hp' = Drop(hp, r) /\ UNCHANGED hmax /\ KP
PSort(max, in, out) == /\ out = SortSeq(in, LAMBDA x, y : IF max THEN x > y ELSE x < y)
                       /\ UNCHANGED <<hp, hmax>> /\ KP

(* ---- ordered trees ---- *)
KT == UNCHANGED <<dl, hl, rg, hp, hmax>>
TKeys == {x[1] : x \in tr}
NodeOf(k) == (CHOOSE x \in tr : x[1] = k)[2]
Ascending(t) == SetToSortSeq(t, LAMBDA x, y : x[1] < y[1])


(* in order both ways, and never higher than twice the logarithm of its size *)
TSees(t, e) == /\ e.fwd = Ascending(t) /\ e.bwd = Reverse(e.fwd)
               /\ 2 ^ e.height <= (Cardinality(t) + 1) * (Cardinality(t) + 1)
TReset == tr' = {} /\ KT
TIns(k, id, r) == /\ IF k \in TKeys THEN r = NodeOf(k) /\ tr' = tr
                     ELSE r = -1 /\ tr' = tr \cup {<<k, id>>}
                  /\ KT
TRem(k, r) == /\ r = (IF k \in TKeys THEN NodeOf(k) ELSE -1)
              /\ tr' = {x \in tr : x[1] # k} /\ KT
TFind(k, r, up, lo) ==
    LET ks == TKeys
        U == {x \in ks : x >= k}
        L == {x \in ks : x <= k}
    IN /\ r = (IF k \in ks THEN NodeOf(k) ELSE -1)
       /\ up = (IF U = {} THEN -1 ELSE NodeOf(Min(U)))
       /\ lo = (IF L = {} THEN -1 ELSE NodeOf(Max(L)))
       /\ UNCHANGED tr /\ KT
TFilter(mod) == tr' = {x \in tr : (x[1] % mod) # 0} /\ KT
TWipe(seen) == LET a == Ascending(tr) IN seen = [i \in 1..Len(a) |-> a[i][2]] /\ tr' = {} /\ KT
=============================================================================
