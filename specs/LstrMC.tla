------------------------------- MODULE LstrMC -------------------------------
(* What the comparisons, the distance and the patterns owe each other, on    *)
(* every pair of short texts.                                                *)
EXTENDS Lstr
CONSTANT N, M
Texts(al, n) == UNION {[1..k -> al] : k \in 0..n}
Next == /\ ev = <<>>
        /\ \/ \E a \in Texts({97, 98, 65}, N) : \E b \in Texts({97, 98, 65}, N) : cells' = <<a, b>> /\ ev' = <<1>> /\ regs' = regs
           \/ \E a \in Texts({97, 98}, M) : \E b \in Texts({97, 37, 95, 92}, M) : cells' = <<a, b>> /\ ev' = <<1, 2>> /\ regs' = regs
Spec == Init /\ [][Next]_vars
a == cells[1]
b == cells[2]
Pair == Len(ev) = 1
Metric == Pair => LET d == Dist(a, b) IN
    /\ d = Dist(b, a)
    /\ (d = 0) <=> (a = b)
    /\ d <= Mx(Len(a), Len(b)) /\ d >= Mx(Len(a), Len(b)) - Mn(Len(a), Len(b))
(* one edit is one *)
Edits(v) == {Take(v, i) \o Drop(v, i + 1) : i \in 0..Len(v) - 1}
       \cup {Take(v, i) \o <<98>> \o Drop(v, i) : i \in 0..Len(v)}
       \cup {Take(v, i) \o <<98>> \o Drop(v, i + 1) : i \in 0..Len(v) - 1}
       \cup {Take(v, i) \o <<v[i + 2], v[i + 1]>> \o Drop(v, i + 2) : i \in 0..Len(v) - 2}
OneEdit == Pair /\ b = <<>> => \A w \in Edits(a) : Dist(a, w) <= 1
Order == Pair => /\ Cmp(a, b) = -Cmp(b, a)
                 /\ (Cmp(a, b) = 0) <=> (a = b)
                 /\ Starts(b, a) => Cmp(a, b) <= 0
                 /\ Starts(a, b) => Within(a, b)
                 /\ Ends(a, b) = Starts(Reverse(a), Reverse(b))
                 /\ Within(a, b) <=> Find(a, b) >= 0
(* a pattern without special characters matches what is equal without case;  *)
(* % matches all; a pattern between % matches what contains it               *)
Esc(v) == Cat([i \in 1..Len(v) |-> IF v[i] \in {37, 95, 92} THEN <<92, v[i]>> ELSE <<v[i]>>])
LikeSelf == Pair => (LikeIs(b, a) <=> (Map(Lo, a) = Map(Lo, b)))
LikeAny == LikeIs(a, <<37>>) /\ (Pair => (LikeIs(a, <<37>> \o b \o <<37>>) <=> Within(Map(Lo, a), Map(Lo, b))))
LikeEsc == ~Pair /\ ev # <<>> => LikeIs(b, Esc(b))
(* two % are one, and a _ goes through a % *)
LikeNorm == (~Pair /\ ev # <<>> /\ \A i \in 1..Len(b) : b[i] # 92) =>
    /\ LikeIs(a, b \o <<37, 37>>) = LikeIs(a, b \o <<37>>)
    /\ LikeIs(a, b \o <<37, 95>>) = LikeIs(a, b \o <<95, 37>>)
Counter == Pair => LET z == Inc(Map(LAMBDA c : IF c = 97 THEN 57 ELSE IF c = 98 THEN 48 ELSE c, a), Len(a), FALSE) IN Len(z[2]) = Len(a)
=============================================================================
