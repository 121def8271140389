------------------------------- MODULE IopMC -------------------------------
(* The format itself: packing is invertible, canonical and compatible across versions. *)
EXTENDS Iop, TLC
B8(b) == Sext(b)
I32 == {B8(<<0>>), B8(<<127>>), B8(<<128, 0>>), B8(<<255>>), B8(<<127, 255>>), B8(<<255, 127>>), B8(<<0, 128, 0, 0>>), B8(<<0, 0, 0, 128>>)}
I2  == {B8(<<5>>), B8(<<200, 0>>)}
I64 == I32 \union {B8(<<0, 0, 0, 128, 0>>), <<0, 0, 0, 0, 0, 0, 0, 128>>, <<255, 255, 255, 255, 0, 0, 0, 0>>}
Str == {<<>>, <<97>>, <<0, 255>>}
Opt(S) == {<<>>} \union {<<x>> : x \in S}
Rep(S) == Opt(S) \union {<<x, y>> : x \in S, y \in S}
Leafs(I, S) == {<<<<a>>, s>> : a \in I, s \in Opt(S)}
LeafS == Leafs(I2, {<<>>})
U8 == {B8(<<0>>), B8(<<255, 0>>), B8(<<128, 0>>)}

Val(t) ==
    CASE t = "Leaf" -> Leafs(I32, Str)
      [] t = "Nil" -> {<<>>}
      [] t = "Opt1" -> {<<a, l, <<s>>, <<<<>>>>>> : a \in Opt(I2), l \in Rep(LeafS), s \in {<<>>, <<100, 118>>}}
      [] t = "Un" -> {<<1, i>> : i \in I32} \union {<<2, s>> : s \in Str} \union {<<3, x>> : x \in LeafS}
                     \union {<<4, d>> : d \in I2} \union {<<5, <<>>>>} \union {<<6, x>> : x \in U8}
                     \union {<<7, <<>>>>} \union {<<8, B8(<<2>>)>>} \union {<<9, s>> : s \in Str}
      [] t = "Base" -> {<<0, <<<<b>>, n>>>> : b \in I32, n \in Opt(Str)}
             \union {<<2, <<m>>, <<<<b>>, n>>>> : m \in Rep(U8), b \in I2, n \in Opt({<<>>})}
             \union {<<3, <<<<k>>, l>>, <<m>>, <<<<b>>, <<>>>>>> : k \in {B8(<<7>>), B8(<<8>>)}, l \in Opt(LeafS), m \in Rep({B8(<<1>>)}), b \in I2}
             \union {<<300, <<<<s>>>>, <<<<b>>, <<>>>>>> : s \in Str, b \in I2}
             \union {<<65535, <<<<f>>>>, <<>>, <<m>>, <<<<b>>, n>>>> : f \in {B8(<<0>>), B8(<<1>>)}, m \in Opt(U8), b \in I2, n \in Opt({<<97>>})}
      [] t = "Solo" -> {<<0, <<a, <<b>>>>>> : a \in Opt(I2), b \in {B8(<<0>>), B8(<<1>>)}}
      [] t = "Tree" -> {<<<<a>>, k, n, u>> : a \in I2, k \in Rep({<<<<x>>, <<>>, <<>>, <<>>>> : x \in I2}),
                         n \in Opt({<<<<x>>, <<>>, <<>>, <<>>>> : x \in I2}), u \in Opt({<<5, <<>>>>, <<2, <<97>>>>})}
      [] t = "Tags" -> {<<<<a>>, b, c, d, e, f, g, h, i>> : a \in I2, b \in Opt({B8(<<1>>)}), c \in Opt({<<>>}), d \in Rep({B8(<<1>>)}), e \in Opt({<<<<B8(<<1>>)>>, <<>>>>}),
                         f \in Rep({B8(<<200, 0>>)}), g \in Opt({Zero8}), h \in Opt({<<<<B8(<<1>>)>>, <<>>>>}), i \in Opt({<<>>})}
      [] t = "V1" -> {<<<<a>>, s, r, <<w>>>> : a \in I32, s \in Opt(Str), r \in Rep(I2), w \in {B8(<<1>>), B8(<<255>>), B8(<<44, 1>>)}}
      [] t = "V2" -> {<<<<a>>, s, n, r, <<d>>, <<w>>, tt, <<<<<<>>, <<>>, <<<<100, 118>>>>, <<<<>>>>>>>>>> :
                        a \in {B8(<<1>>), B8(<<0, 0, 0, 128>>), B8(<<0, 0, 0, 128, 0>>)}, s \in Rep({<<>>, <<97>>}), n \in Opt(LeafS), r \in Opt(I2),
                        d \in {B8(<<9>>), B8(<<10>>)}, w \in {B8(<<1>>), B8(<<0, 128, 0>>)}, tt \in Rep({<<<<B8(<<1>>)>>, <<>>, <<>>, <<>>>>})}
Tys == {"Leaf", "Nil", "Opt1", "Un", "Base", "Solo", "Tree", "Tags", "V1", "V2"}

VARIABLES ty, val, fl, on, part
NPart == 4
\* the values of a type are dealt in parts so that the workers share them
Hash(v) == Len(ToString(v)) % NPart
Init == ty \in Tys /\ val = <<>> /\ fl \in {0, 1} /\ on = FALSE /\ part \in 0..NPart - 1 /\ slot = <<>> /\ ev = <<>>
Next == ~on /\ on' = TRUE /\ val' \in {v \in Val(ty) : Hash(v) = part} /\ UNCHANGED <<ty, fl, part, slot, ev>>
Spec == Init /\ [][Next]_<<ty, val, fl, on, part, slot, ev>>

Enc == EncBody(ty, val, fl)
RoundTrip == on => LET b == Enc IN Dec(ty, b, 0) = Ok(val)
Canonical == on => LET b == Enc p == Items(b, 1, Len(b), <<>>) IN
    p.ok /\ (Sch[ty].k = "struct" => Increasing(p.it) /\ \A i \in 1..Len(p.it) : \E j \in 1..Len(Sch[ty].f) : Sch[ty].f[j].tag = p.it[i].tag)
\* a truncated message is refused, or read as the value whose last fields were not sent
Truncated == on /\ Sch[ty].k # "class" => LET b == Enc IN
    \A n \in 0..Len(b) - 1 :
        LET r == Dec(ty, SubSeq(b, 1, n), 0) IN
        /\ r.st # "open"
        /\ r.st = "ok" => /\ Sch[ty].k = "struct"
                          /\ \E k \in 0..Len(val) : /\ SubSeq(r.v, 1, k) = SubSeq(val, 1, k)
                                                    /\ \A i \in k + 1..Len(val) : Ok(r.v[i]) = Absent(Sch[ty].f[i])
\* versions: optional -> repeated, repeated -> optional (the last one), widened integers, added and removed fields
Evolution == on =>
    /\ ty = "V1" => LET b == Enc IN
        /\ Dec("V2", b, 0) = Ok(<<val[1], val[2], <<>>, IF val[3] = <<>> THEN <<>> ELSE <<val[3][Len(val[3])]>>, <<B8(<<9>>)>>, val[4], <<>>,
                                  <<<<<<>>, <<>>, <<<<100, 118>>>>, <<<<>>>>>>>>>>)
        /\ Dec("V3", b, 0) = IF Fits(val[1][1], 1) /\ FitsU(val[4][1], 2) THEN Ok(<<val[1], val[4]>>) ELSE Fail
    /\ ty = "V2" => LET b == Enc IN
        Dec("V1", b, 0) = IF Fits(val[1][1], 4) /\ Fits(val[6][1], 2)
                          THEN Ok(<<val[1], IF val[2] = <<>> THEN <<>> ELSE <<val[2][Len(val[2])]>>, val[4], val[6]>>) ELSE Fail
    /\ ty = "Opt1" => LET b == Enc r == Dec("Nil", b, 0) IN r = Ok(<<>>)
    /\ ty = "Base" => LET b == Enc r == Dec("Mid", b, 0) IN (r.st = "ok") = (ById("Base", val[1]) \in Children("Mid"))
=============================================================================
