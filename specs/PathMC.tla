------------------------------- MODULE PathMC -------------------------------
(* What the operations owe to the places paths denote, on every path over a  *)
(* small alphabet.                                                           *)
EXTENDS Path
CONSTANT N, M
Alpha == {Slash, Dot, 97}
Texts(n) == UNION {[1..k -> Alpha] : k \in 0..n}
p == regs[0]
q == regs[1]
Next == /\ ev = <<>>
        /\ \/ \E a \in Texts(N) : regs' = [regs EXCEPT ![0] = a] /\ ev' = <<1>> /\ cwd' = cwd
           \/ \E a \in Texts(M) : \E b \in Texts(M) : \E c \in {<<Slash>>, <<Slash, 98>>, <<Slash, 97, Slash, 98>>} :
                regs' = [regs EXCEPT ![0] = a, ![1] = b] /\ cwd' = c /\ ev' = <<2>>
Spec == Init /\ [][Next]_vars
At(base, x) == Place(Full(base) \o <<Slash>> \o x)
(* simplifying keeps the place and gives a normal form *)
SimplKeeps == p # <<>> => \A k \in BOOLEAN : Place(Simplify(p, k)) = Place(p)
SimplTwice == p # <<>> => \A k \in BOOLEAN : Simplify(Simplify(p, k), k) = Simplify(p, k)
Canon == ev # <<>> /\ Len(ev) = 1 /\ p # <<>> =>
    LET s == Simplify(p, FALSE) c == Comps(s) IN
    /\ Len(s) <= Len(p)
    /\ s \in {<<Slash>>, D1} \/ (~EndsSlash(s) /\ \A i \in 1..Len(c) : c[i] # D1)
    /\ \A i \in 1..Len(s) - 1 : ~(s[i] = Slash /\ s[i + 1] = Slash)
    /\ \A i \in 2..Len(c) : c[i] = D2 => c[i - 1] = D2
    /\ Abs(s) => \A i \in 1..Len(c) : c[i] # D2
(* two paths denote the same place exactly when they have the same normal form *)
SameForm == (ev = <<2>> /\ p # <<>> /\ q # <<>>) =>
    ((Simplify(p, FALSE) = Simplify(q, FALSE)) <=> (Place(p) = Place(q)))
(* a safe path stays below where it starts *)
SafeStays == Safe(p) => Walk(p).up = 0 /\ ~Abs(p)
(* directory and base name put together lead to the same place, unless the   *)
(* last component is a special one                                           *)
DirBase == LET b == BaseName(p) IN
           b # <<>> => Place(DirName(p) \o <<Slash>> \o b) = Place(p)
DirUp == LET b == BaseName(p) IN b \notin {<<>>, D1, D2} =>
         Place(DirName(p)) = Place(p \o <<Slash, Dot, Dot>>)
PartsCut == Take(p, FileAt(p)) \o Drop(p, FileAt(p)) = p /\ \A i \in FileAt(p) + 1..Len(p) : p[i] # Slash
(* a relative path leads from the directory of one to the other *)
RelLeads == ev = <<2>> =>
    LET f == Full(p) t == Full(q) r == Relative(f, t) d == RelDir(f) IN
    IF Walk(f).down = Walk(t).down THEN r = (IF Walk(t).down = <<>> THEN D1 ELSE Last(Walk(t).down))
    ELSE Place(<<Slash>> \o JoinC(d) \o <<Slash>> \o r) = Place(t)
JoinLeads == (ev = <<2>> /\ p # <<>> /\ ~Abs(q)) => Place(Joined(p, q)) = Place(p \o <<Slash>> \o q)
=============================================================================
