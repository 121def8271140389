------------------------------ MODULE IopValMC ------------------------------
(* The operations on the values of the model of the format: hashes tell different values apart,
   visits see each part once and only what is below what was not skipped. *)
EXTENDS IopVal, TLC
B8(b) == Sext(b)
I2 == {B8(<<5>>), B8(<<200, 0>>)}
Str == {<<>>, <<97>>, <<65>>}
Opt(S) == {<<>>} \union {<<x>> : x \in S}
Rep(S) == Opt(S) \union {<<x, y>> : x \in S, y \in S}
Leafs == {<<<<a>>, s>> : a \in I2, s \in Opt(Str)}
LeafS == {<<<<a>>, <<>>>> : a \in I2}
Val(t) ==
    CASE t = "Leaf" -> Leafs
      [] t = "Opt1" -> {<<a, l, <<s>>, <<<<>>>>>> : a \in Opt(I2), l \in Rep(LeafS), s \in {<<>>, <<100, 118>>}}
      [] t = "Un" -> {<<1, i>> : i \in I2} \union {<<2, s>> : s \in Str} \union {<<3, x>> : x \in Leafs} \union {<<5, <<>>>>} \union {<<7, <<>>>>}
      [] t = "Base" -> {<<0, <<<<b>>, n>>>> : b \in I2, n \in Opt(Str)}
             \union {<<2, <<m>>, <<<<b>>, n>>>> : m \in Rep(I2), b \in I2, n \in Opt({<<>>})}
             \union {<<3, <<<<k>>, l>>, <<m>>, <<<<b>>, <<>>>>>> : k \in {B8(<<7>>), B8(<<8>>)}, l \in Opt(LeafS), m \in Rep({B8(<<1>>)}), b \in I2}
      [] t = "Tree" -> {<<<<a>>, k, n, u>> : a \in I2, k \in Rep({<<<<x>>, <<>>, <<>>, <<>>>> : x \in I2}),
                         n \in Opt({<<<<x>>, <<>>, <<>>, <<>>>> : x \in I2}), u \in Opt({<<5, <<>>>>, <<2, <<97>>>>})}
Tys == {"Leaf", "Opt1", "Un", "Base", "Tree"}
VARIABLES ty, v1, v2
vars == <<ty, v1, v2, slot, ev>>
Init == ty \in Tys /\ v1 = <<"none">> /\ v2 = <<"none">> /\ slot = <<>> /\ ev = <<>>
Next == \/ v1 = <<"none">> /\ v1' \in Val(ty) /\ UNCHANGED <<ty, v2, slot, ev>>
        \/ v1 # <<"none">> /\ v2 = <<"none">> /\ v2' \in Val(ty) /\ UNCHANGED <<ty, v1, slot, ev>>
Spec == Init /\ [][Next]_vars
Two == v1 # <<"none">> /\ v2 # <<"none">>
\* different values are hashed differently, whatever is left out keeps values that differ elsewhere apart
Injective == Two => ((HAgg(ty, v1, 0) = HAgg(ty, v2, 0)) = (v1 = v2))
Acc0 == [n |-> 0, o |-> <<>>, r |-> "go"]
Vis(m, skip, stop) == VAgg([mode |-> m, fast |-> FALSE, skip |-> skip, stop |-> stop], ty, v1, <<>>, Acc0)
\* stopping at the n-th call gives the first n calls, skipping leaves a subsequence, no path is seen twice
Visits == (v1 # <<"none">> /\ v2 = <<"none">>) =>
    \A m \in {"field", "st", "obj"} :
        LET all == Vis(m, {}, 0) IN
        /\ all.r = "go" /\ all.n = Len(all.o)
        /\ \A i, j \in 1..Len(all.o) : all.o[i] = all.o[j] => i = j
        /\ \A n \in 1..Len(all.o) : LET s == Vis(m, {}, n) IN s.r = "stop" /\ s.o = SubSeq(all.o, 1, n)
        /\ \A n \in 1..Len(all.o) : LET s == Vis(m, {n}, 0) IN
              /\ SubSeq(s.o, 1, n) = SubSeq(all.o, 1, n)
              /\ \A i \in 1..Len(s.o) : \E j \in 1..Len(all.o) : all.o[j] = s.o[i]
=============================================================================
