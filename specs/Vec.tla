-------------------------------- MODULE Vec --------------------------------
(* Vectors are sequences; numeric arrays are sequences of numbers (given as four 16-bit parts, since TLC's
   integers have 32 bits). *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC
VARIABLES vec,    \* vector -> sequence of values
          kind,   \* which element type (2: several values compare equal)
          num,    \* numeric array
          sgn,    \* it is a signed one
          ev
vars == <<vec, kind, num, sgn, ev>>
Vecs == 0..2
Init == /\ vec = [i \in Vecs |-> <<>>] /\ kind = 0 /\ num = <<>> /\ sgn = FALSE
        /\ ev = [op |-> "init"]
Sub(s, a, b) == SubSeq(s, a, b)
Key(v) == IF kind = 2 THEN v \div 4 ELSE v
Count(s) == [x \in Range(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
(* same elements, the same number of times each *)
Perm(a, b) == TRUE = (Len(a) = Len(b) /\ SortSeq(a, LAMBDA x, y : x < y) = SortSeq(b, LAMBDA x, y : x < y))
Sorted(s) == TRUE = (\A i \in 1..(Len(s) - 1) : Key(s[i]) <= Key(s[i + 1]))
StrictlySorted(s) == TRUE = (\A i \in 1..(Len(s) - 1) : Key(s[i]) < Key(s[i + 1]))
KeepNum == UNCHANGED <<num, sgn>>
(* the vector becomes s, and that is what was read back *)
To(v, s, tab, ok) == /\ v \in Vecs /\ ok /\ tab = s /\ vec' = [vec EXCEPT ![v] = s] /\ UNCHANGED kind /\ KeepNum

Reset(k) == vec' = [i \in Vecs |-> <<>>] /\ kind' = k /\ KeepNum
Put(s, at, rm, xs) == Sub(s, 1, at) \o xs \o Sub(s, at + rm + 1, Len(s))
Splice(v, at, rm, xs, tab, ok) ==
    /\ at >= 0 /\ rm >= 0 /\ at + rm <= Len(vec[v])
    /\ To(v, Put(vec[v], at, rm, xs), tab, ok)
Append_(v, x, tab, ok) == To(v, Append(vec[v], x), tab, ok)
Extend(v, xs, tab, ok) == To(v, vec[v] \o xs, tab, ok)
Clip(v, n, tab, ok) == n \in 0..Len(vec[v]) /\ To(v, Sub(vec[v], 1, n), tab, ok)
Same(v, tab, ok) == To(v, vec[v], tab, ok)
Grow(v, n, pred, size0, size1, zero, tab, ok) ==
    /\ zero
    /\ size1 >= Len(vec[v]) + n
    /\ size1 > size0 => pred = size1
    /\ size1 <= size0 => pred = 0
    /\ Same(v, tab, ok)
Optimize(v, r1, r2, size1, tab, ok) == size1 >= Len(vec[v]) /\ Same(v, tab, ok)
Sort(v, tab, ok) == Perm(vec[v], tab) /\ Sorted(tab) /\ To(v, tab, tab, ok)
Shuffle(v, tab, ok) == Perm(vec[v], tab) /\ To(v, tab, tab, ok)
(* of each run of equal elements of a sorted vector one is kept; the others are given to the callback *)
Uniq(v, withdel, dels, tab, ok) ==
    LET s == vec[v]
        kept == SelectSeq([i \in 1..Len(s) |-> <<i, s[i]>>], LAMBDA p : p[1] = 1 \/ Key(s[p[1] - 1]) # Key(p[2]))
    IN /\ Sorted(s)
       /\ Len(tab) = Len(kept)
       /\ \A i \in 1..Len(tab) : Key(tab[i]) = Key(kept[i][2])
       /\ IF withdel THEN Perm(s, tab \o dels)
                     ELSE dels = <<>> /\ TRUE = (\A i \in 1..Len(tab) : tab[i] \in Range(s))
       /\ To(v, tab, tab, ok)
Bisect(v, x, p, found, tab, ok) ==
    LET s == vec[v] IN
    /\ Sorted(s)
    /\ found = (\E i \in 1..Len(s) : Key(s[i]) = Key(x))
    /\ IF found THEN p \in 0..(Len(s) - 1) /\ Key(s[p + 1]) = Key(x)
       ELSE p = Cardinality({i \in 1..Len(s) : Key(s[i]) < Key(x)})
    /\ Same(v, tab, ok)
Find(v, x, sorted, p, has, tab, ok) ==
    LET s == vec[v]
        at == {i \in 1..Len(s) : Key(s[i]) = Key(x)}
    IN /\ sorted => Sorted(s)
       /\ has = (at # {})
       /\ IF at = {} THEN p = -1
          ELSE IF sorted THEN p + 1 \in at ELSE p + 1 = Min(at)
       /\ Same(v, tab, ok)
Keys(s) == {Key(s[i]) : i \in 1..Len(s)}
Diff(v, w, mask, pre, add, del, inter, tab2, tab, ok) ==
    LET a == vec[v] b == vec[w]
        P == IF pre THEN <<7>> ELSE <<>>
        Has(bit) == ((mask \div bit) % 2) = 1
    IN /\ StrictlySorted(a) /\ StrictlySorted(b)
       /\ add = P \o (IF Has(1) THEN SelectSeq(b, LAMBDA x : Key(x) \notin Keys(a)) ELSE <<>>)
       /\ del = P \o (IF Has(2) THEN SelectSeq(a, LAMBDA x : Key(x) \notin Keys(b)) ELSE <<>>)
       /\ inter = P \o (IF Has(4) THEN SelectSeq(a, LAMBDA x : Key(x) \in Keys(b)) ELSE <<>>)
       /\ tab2 = b
       /\ Same(v, tab, ok)

(* numeric arrays *)
KeepVec == UNCHANGED <<vec, kind>>
NTop(x) == IF sgn THEN (x[1] + 32768) % 65536 ELSE x[1]
NLess(x, y) == \/ NTop(x) < NTop(y)
               \/ /\ x[1] = y[1]
                  /\ \/ x[2] < y[2]
                     \/ /\ x[2] = y[2]
                        /\ \/ x[3] < y[3]
                           \/ x[3] = y[3] /\ x[4] < y[4]
NSorted(s) == TRUE = (\A i \in 1..(Len(s) - 1) : ~NLess(s[i + 1], s[i]))
NSet(s, tab) == num' = tab /\ sgn' = s /\ KeepVec
NSort(tab) == /\ IF Len(num) < 2000 THEN tab = SortSeq(num, LAMBDA x, y : NLess(x, y))
                 ELSE /\ NSorted(tab) /\ Len(tab) = Len(num)       \* all different (SortSeq is quadratic)
                      /\ LET r == Range(num) IN Cardinality(r) = Len(num) /\ Range(tab) = r
              /\ num' = tab /\ UNCHANGED sgn /\ KeepVec
NUniq(tab) == /\ NSorted(num)
              /\ LET kept == {i \in 1..Len(num) : i = 1 \/ num[i - 1] # num[i]} IN Len(tab) = Cardinality(kept)
              /\ TRUE = (\A i \in 1..(Len(tab) - 1) : NLess(tab[i], tab[i + 1]))
              /\ Range(tab) = Range(num)
              /\ num' = tab /\ UNCHANGED sgn /\ KeepVec
NBisect(x, p, found, has) ==
    /\ NSorted(num)
    /\ found = has
    /\ found = (x \in Range(num))
    /\ IF found THEN p \in 0..(Len(num) - 1) /\ num[p + 1] = x
       ELSE p = Cardinality({i \in 1..Len(num) : NLess(num[i], x)})
    /\ UNCHANGED <<num, sgn>> /\ KeepVec
=============================================================================
