------------------------------- MODULE VecMC -------------------------------
(* Small instance: sorting, removing duplicates, searching and comparing owe each other what users assume. *)
EXTENDS Vec
CONSTANTS MaxLen, Vals
Small == UNION {[1..n -> Vals] : n \in 0..2}
E(o) == ev' = o
Perms(s) == {t \in [1..Len(s) -> Range(s)] : Perm(s, t)}
Subs(s) == UNION {[1..n -> Range(s)] : n \in 0..Len(s)}
MCInit == Init
Next ==
    \/ kind = 0 /\ Reset(2) /\ E("reset")
    \/ \E v \in {0, 1} :
         \/ \E at \in 0..Len(vec[v]) : \E rm \in 0..(Len(vec[v]) - at), xs \in Small :
               /\ Len(vec[v]) - rm + Len(xs) <= MaxLen
               /\ Splice(v, at, rm, xs, Put(vec[v], at, rm, xs), TRUE) /\ E("splice")
         \/ \E t \in Perms(vec[v]) : Sort(v, t, TRUE) /\ E("sort")
         \/ Sorted(vec[v]) /\ \E t \in Subs(vec[v]) : Uniq(v, FALSE, <<>>, t, TRUE) /\ E("uniq")
         \/ \E w \in {0, 1} : To(v, vec[w], vec[w], TRUE) /\ E("copy")
View == <<vec, kind>>
Spec == MCInit /\ [][Next]_vars
(* a sorted vector stays sorted when an element is inserted where the search says *)
InsertKeepsOrder ==
    \A v \in {0, 1} : Sorted(vec[v]) => \A x \in Vals, p \in 0..Len(vec[v]), f \in BOOLEAN :
        (/\ f = (\E i \in 1..Len(vec[v]) : Key(vec[v][i]) = Key(x))
         /\ IF f THEN p < Len(vec[v]) /\ Key(vec[v][p + 1]) = Key(x)
            ELSE p = Cardinality({i \in 1..Len(vec[v]) : Key(vec[v][i]) < Key(x)}))
        => Sorted(Put(vec[v], p, 0, <<x>>))
(* what the comparison of two vectors says is enough to rebuild one from the other *)
DiffRebuilds ==
    LET a == vec[0] b == vec[1] IN
    (StrictlySorted(a) /\ StrictlySorted(b)) =>
        LET add == SelectSeq(b, LAMBDA x : Key(x) \notin Keys(a))
            del == SelectSeq(a, LAMBDA x : Key(x) \notin Keys(b))
            inter == SelectSeq(a, LAMBDA x : Key(x) \in Keys(b))
        IN /\ Keys(add) \cup Keys(inter) = Keys(b)
           /\ Keys(del) \cup Keys(inter) = Keys(a)
           /\ Len(del) + Len(inter) = Len(a) /\ Len(add) + Len(inter) = Len(b)
SortedOnce == [][ev' = "uniq" => \E v \in {0, 1} : Keys(vec'[v]) = Keys(vec[v]) /\ StrictlySorted(vec'[v])]_vars
=============================================================================
