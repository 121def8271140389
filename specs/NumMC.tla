------------------------------ MODULE NumMC -------------------------------
(* laws of the reading of numbers, against the arithmetic of TLC            *)
EXTENDS Num
Chars == {32, 43, 45, 48, 49, 55, 57, 97, 120}
Next == ev = <<>> /\ \E n \in 1..4 : \E t \in [1..n -> Chars] : ev' = SubSeq(t, 1, n)
Spec == Init /\ [][Next]_vars
RECURSIVE IntOf(_, _)
IntOf(ds, b) == IF ds = <<>> THEN 0 ELSE IntOf(Take(ds, Len(ds) - 1), b) * b + ds[Len(ds)]
Signed(v) == IF v.neg THEN -IntOf(v.d, 10) ELSE IntOf(v.d, 10)
(* a text of digits has the value of its digits *)
Value == \A b \in {8, 10, 16} :
         (ev # <<>> /\ \A i \in 1..Len(ev) : Dv(ev[i]) < b) =>
         LET p == Scan(ev, b) IN p.any /\ p.next = Len(ev) + 1 /\ Signed(p.v) = IntOf([i \in 1..Len(ev) |-> Dv(ev[i])], b)
(* what follows a number does not change it, and nothing is read before it is looked at *)
Prefix == \A b \in {0, 8, 10, 16} : LET p == Scan(ev, b) IN
          p.any => LET q == Scan(Take(ev, p.next - 1), b) IN q.any /\ q.v = p.v /\ q.next = p.next
(* the sign is the only difference between a number and its opposite *)
Minus == (ev # <<>> /\ Digit(ev[1])) => \A b \in {0, 8, 10, 16} :
         Signed(Scan(<<45>> \o ev, b).v) = -Signed(Scan(ev, b).v) /\ Scan(<<43>> \o ev, b).v = Scan(ev, b).v
(* blanks before a number do not count *)
Blank == \A b \in {0, 10} : Scan(<<32, 9>> \o ev, b).v = Scan(ev, b).v
(* magnitudes are added, multiplied and ordered as numbers *)
Arith == ev # <<>> => LET a == Scan(ev, 10).v.d IN \A k \in {0, 7, 10, 60, 1024} :
         /\ IntOf(MulAdd(a, k, 5), 10) = IntOf(a, 10) * k + 5
         /\ IntOf(MAdd(a, DecOf(k)), 10) = IntOf(a, 10) + k
         /\ MLess(a, DecOf(k)) <=> IntOf(a, 10) < k
(* a decimal point only moves digits: x.y e n = xy e (n - |y|) *)
Dec(t) == Parse(t)
Point == (ev # <<>> /\ Len(ev) <= 4 /\ ev[1] \in {49, 55, 57} /\ \A i \in 1..Len(ev) : Digit(ev[i])) =>
         \A i \in 1..Len(ev) : Dec(Take(ev, i) \o <<46>> \o Drop(ev, i) \o <<107>>).v = Dec(ev \o <<101>> \o <<51 - (Len(ev) - i)>>).v
Units == (ev # <<>> /\ \A i \in 1..Len(ev) : Digit(ev[i]) /\ ev[1] # 48) =>
         /\ Dec(ev \o <<75>>).v = N(FALSE, DecOf(IntOf([i \in 1..Len(ev) |-> Dv(ev[i])], 10) * 1024)) \/ IntOf([i \in 1..Len(ev) |-> Dv(ev[i])], 10) > 90000
         /\ Dec(ev \o <<109>>).v = Dec(ev \o <<101, 54>>).v
         /\ Dec(<<45>> \o ev \o <<107>>).v = N(TRUE, Dec(ev \o <<107>>).v.d)
=============================================================================
