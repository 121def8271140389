------------------------------- MODULE ContsMC -------------------------------
(* Small instance, one kind of container at a time. *)
EXTENDS Conts
CONSTANTS Kind, Keys, MaxLen
E(o) == ev' = o
NextD == \/ \E l \in Lists, e \in Nodes :
                 \/ DAdd(l, e) /\ E("add")
                 \/ DTail(l, e) /\ E("add")
                 \/ DMove(l, e) /\ E("move")
                 \/ DMoveTail(l, e) /\ E("move")
                 \/ \E d \in Lists : e \in Range(dl[l]) /\ DCut(l, e, d) /\ E("move")
         \/ \E e, n \in Nodes : \/ DAfter(e, n) /\ E("add")
                                \/ DBefore(e, n) /\ E("add")
         \/ \E e \in Nodes : DRemove(e) /\ E("remove")
         \/ \E l \in Lists : dl[l] # <<>> /\ DPop(l, dl[l][1]) /\ E("remove")
         \/ \E d, s \in Lists : \/ DSplice(d, s) /\ E("move")
                                \/ DSpliceTail(d, s) /\ E("move")
NextH == \/ \E l \in Lists, e \in Nodes :
                 \/ HAdd(l, e) /\ E("add")
                 \/ HTail(l, e) /\ E("add")
                 \/ \E p \in Nodes \cup {-1} : HAfter(l, p, e) /\ E("add")
         \/ \E l \in Lists : hl[l] # <<>> /\ HPop(l, hl[l][1]) /\ E("remove")
         \/ \E d, s \in Lists : \/ HSplice(d, s) /\ E("move")
                                \/ HSpliceTail(d, s) /\ E("move")
NextR == \/ \E x \in Keys : Len(rg) < MaxLen /\ (RPush(x) \/ RUnshift(x)) /\ E("add")
         \/ \E ok \in BOOLEAN, x \in Keys : (RShift(ok, x) \/ RPop(ok, x)) /\ E("remove")
         \/ \E n \in -1..(MaxLen + 1), ok \in BOOLEAN : RSkip(n, ok) /\ E("remove")
         \/ RFilter(2) /\ E("remove")
NextP == \/ hp = <<>> /\ PReset(~hmax) /\ E("reset")
         \/ \E e \in Nodes, k \in Keys : \/ PIns(e, k) /\ E("add")
                                         \/ PFix(e, k) /\ E("fix")
         \/ \E e \in Nodes : \/ PRem(e, e) /\ E("remove")
                             \/ PTake(e) /\ E("take")
NextT == \/ \E k \in Keys, n \in Nodes, r \in Nodes \cup {-1} :
                n \notin {x[2] : x \in tr} /\ TIns(k, n, r) /\ E("add")
         \/ \E k \in Keys, r \in Nodes \cup {-1} : TRem(k, r) /\ E("remove")
Next == CASE Kind = "d" -> NextD [] Kind = "h" -> NextH [] Kind = "r" -> NextR [] Kind = "p" -> NextP [] Kind = "t" -> NextT
Spec == Init /\ [][Next]_vars
View == <<dl, hl, rg, hp, hmax, tr>>
NoDup(s) == Cardinality(Range(s)) = Len(s)
(* a node is never twice in lists; moving nodes around loses none *)
NodeOnce == \A ls \in {dl, hl} : NoDup(ls[0] \o ls[1])
NoneLost == [][ev' = "move" => Used(dl') = Used(dl) /\ Used(hl') = Used(hl)]_vars
OneMore == [][ev' = "add" /\ Kind \in {"d", "h"} =>
               Cardinality(Used(dl') \cup Used(hl')) = Cardinality(Used(dl) \cup Used(hl)) + 1]_vars
(* what is taken from a heap is never after what stays *)
TakeInOrder == [][ev' = "take" => \A e \in (DOMAIN hp) \ (DOMAIN hp'), f \in DOMAIN hp' : ~Before(hp[f], hp[e])]_vars
OneNodePerKey == \A x, y \in tr : x[1] = y[1] => x = y
=============================================================================
