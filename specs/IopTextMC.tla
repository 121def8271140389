----------------------------- MODULE IopTextMC -----------------------------
(* The XML form itself: what is written is read back; unknown elements can be ignored. *)
EXTENDS IopText, TLC
B8(b) == Sext(b)
I8s == {B8(<<0>>), B8(<<127>>), B8(<<128>>), B8(<<255>>), B8(<<128, 0>>), B8(<<0, 0, 0, 128>>), B8(<<255, 255, 255, 127>>)}
I2  == {B8(<<5>>), B8(<<200, 0>>)}
Str == {<<>>, <<97>>, <<38, 60>>, <<93, 93, 62>>, <<97, 34, 39>>}
Dat == {<<>>, <<0>>, <<255, 1>>, <<7, 8, 9>>, <<251, 255, 191, 1>>}
Opt(S) == {<<>>} \union {<<x>> : x \in S}
Rep(S) == Opt(S) \union {<<x, y>> : x \in S, y \in S}
LeafS == {<<<<a>>, s>> : a \in I2, s \in Opt({<<>>, <<98>>})}
Val(t) ==
    CASE t = "Leaf" -> {<<<<a>>, s>> : a \in I8s, s \in Opt(Str)}
      [] t = "Cdat" -> {<<<<a>>, b, <<c>>>> : a \in Str, b \in Rep(Str), c \in Str}
      [] t = "Un" -> {<<1, i>> : i \in I8s} \union {<<2, s>> : s \in Str} \union {<<3, x>> : x \in LeafS}
                     \union {<<5, <<>>>>} \union {<<6, x>> : x \in {B8(<<0>>), B8(<<255, 0>>)}}
                     \union {<<7, <<>>>>} \union {<<8, B8(<<2>>)>>} \union {<<9, s>> : s \in Dat}
      [] t = "Base" -> {<<0, <<<<b>>, n>>>> : b \in I8s, n \in Opt(Str)}
             \union {<<2, <<m>>, <<<<b>>, n>>>> : m \in Rep({B8(<<0>>), B8(<<255, 0>>)}), b \in I2, n \in Opt({<<>>})}
             \union {<<3, <<<<k>>, l>>, <<m>>, <<<<b>>, <<>>>>>> : k \in {B8(<<7>>), B8(<<8>>)}, l \in Opt(LeafS), m \in Rep({B8(<<1>>)}), b \in I2}
             \union {<<65535, <<<<f>>>>, <<>>, <<m>>, <<<<b>>, n>>>> : f \in {B8(<<0>>), B8(<<1>>)}, m \in Opt({B8(<<9>>)}), b \in I2, n \in Opt({<<97>>})}
      [] t = "Opt1" -> {<<a, l, <<s>>, <<<<>>>>>> : a \in Opt(I2), l \in Rep(LeafS), s \in {<<>>, <<100, 118>>}}
      [] t = "Tree" -> {<<<<a>>, k, n, u>> : a \in I2, k \in Rep({<<<<x>>, <<>>, <<>>, <<>>>> : x \in I2}),
                         n \in Opt({<<<<x>>, <<>>, <<>>, <<>>>> : x \in I2}), u \in Opt({<<5, <<>>>>, <<2, <<97>>>>})}
Tys == {"Leaf", "Cdat", "Un", "Base", "Opt1", "Tree"}
VARIABLES ty, val, fl, on
Init == ty \in Tys /\ val = <<>> /\ fl \in 0..3 /\ on = FALSE /\ slot = <<>> /\ ev = <<>>
Next == ~on /\ on' = TRUE /\ val' \in Val(ty) /\ UNCHANGED <<ty, fl, slot, ev>>
Spec == Init /\ [][Next]_<<ty, val, fl, on, slot, ev>>
X == XRoot([t |-> ty, v |-> val], fl)
ReadBack == on => LET r == X IN XDec(ty, r, 0, FALSE) = Ok(val)
\* unknown elements anywhere at the root are refused, or ignored when asked (not in a union)
Junk == <<<<113, 113>>, <<>>, 1, <<>>>>
Unknown == on => LET r == X IN
    \A i \in 0..Len(r[4]) :
        LET r2 == [r EXCEPT ![4] = SubSeq(r[4], 1, i) \o <<Junk>> \o SubSeq(r[4], i + 1, Len(r[4]))]
            d == XDec(ty, r2, 1, FALSE)
        IN /\ XDec(ty, r2, 0, FALSE) = Fail
           /\ (Sch[ty].k # "union" /\ (i = 0 \/ i = Len(r[4]) \/ r[4][i][1] # r[4][i + 1][1])) => d = Ok(val)
\* without its last element, the value is refused, or is another one (or that element held the value it has when absent)
Prefix == on /\ Sch[ty].k = "struct" /\ ty # "Opt1" => LET r == X IN
    Len(r[4]) > 0 => LET d == XDec(ty, [r EXCEPT ![4] = SubSeq(r[4], 1, Len(r[4]) - 1)], 0, FALSE)
                     IN d.st # "open" /\ d # Ok(val)
=============================================================================
