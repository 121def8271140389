------------------------------- MODULE Bits -------------------------------
(* A bit buffer is a sequence of bits; a bit stream is a view on a part of  *)
(* such a sequence, of which it remembers the alignment of its start.       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES buf, str, ev
vars == <<buf, str, ev>>
Init == buf = <<>> /\ str = [i \in {} |-> 0] /\ ev = [op |-> "init"]

Min(a, b) == IF a < b THEN a ELSE b
Rep(b, n) == [i \in 1..n |-> b]
Sub(q, i, j) == IF j < i THEN <<>> ELSE SubSeq(q, i, j)
DropFirst(q, n) == Sub(q, n + 1, Len(q))
DropLast(q, n) == Sub(q, 1, Len(q) - n)
PutS(id, s) == str' = [x \in DOMAIN str \cup {id} |-> IF x = id THEN s ELSE str[x]]

(* ---- the buffer; len: the length reported after the operation ---- *)
New(v, len) == buf' = v /\ len = Len(buf') /\ str' = [i \in {} |-> 0]
Add(v, len) == buf' = buf \o v /\ len = Len(buf') /\ UNCHANGED str
Fill(b, n, len) == Add(Rep(b, n), len)
Align(len) == Add(Rep(0, (8 - (Len(buf) % 8)) % 8), len)
Clear(len) == buf' = <<>> /\ len = 0 /\ UNCHANGED str
ShiftLeft(n, len) == buf' = DropFirst(buf, Min(n, Len(buf))) /\ len = Len(buf') /\ UNCHANGED str
Dump(c, zero) == c = buf /\ zero /\ UNCHANGED <<buf, str>>
ToSb(v, len) ==
    /\ v = buf \o Rep(0, (8 - (Len(buf) % 8)) % 8)
    /\ buf' = <<>> /\ len = 0 /\ UNCHANGED str
AddStream(id, len) == Add(str[id].q, len)

(* ---- streams ---- *)
Q(id) == str[id].q
Set(id, off, q) == PutS(id, [off |-> off % 8, q |-> q]) /\ UNCHANGED buf
Fwd(id, n) == Set(id, str[id].off + n, DropFirst(Q(id), n))
Back(id, n) == Set(id, str[id].off, DropLast(Q(id), n))
Same == UNCHANGED <<buf, str>>

Open(id, st, back) == Set(id, st, Sub(buf, st + 1, Len(buf) - back))
Length(id, n, len, has, hasb, done, al) ==
    /\ len = Len(Q(id)) /\ has = (n <= len) /\ hasb = (8 * n <= len) /\ done = (len = 0)
    /\ al = (str[id].off = 0) /\ Same
All(id, v) == v = Q(id) /\ Same
Skip(id, n, r) == IF n <= Len(Q(id)) THEN r = n /\ Fwd(id, n) ELSE r = -1 /\ Same
Shrink(id, n, r) == IF n <= Len(Q(id)) THEN r = n /\ Back(id, n) ELSE r = -1 /\ Same
Clip(id, n, r) == IF n <= Len(Q(id)) THEN r = Len(Q(id)) - n /\ Back(id, r) ELSE r = -1 /\ Same
SAlign(id, r) ==
    LET n == (8 - str[id].off) % 8 IN
    IF n <= Len(Q(id)) THEN r = n /\ Fwd(id, n) ELSE r = -1 /\ Same
Peek(id, r) == r = (IF Q(id) = <<>> THEN -1 ELSE Q(id)[1]) /\ Same
PeekLast(id, r) == r = (IF Q(id) = <<>> THEN -1 ELSE Q(id)[Len(Q(id))]) /\ Same
Get(id, r) == IF Q(id) = <<>> THEN r = -1 /\ Same ELSE r = Q(id)[1] /\ Fwd(id, 1)
GetLast(id, r) == IF Q(id) = <<>> THEN r = -1 /\ Same ELSE r = Q(id)[Len(Q(id))] /\ Back(id, 1)
Gets(id, n, r, v) ==
    IF n <= 64 /\ n <= Len(Q(id)) THEN r = n /\ v = Sub(Q(id), 1, n) /\ Fwd(id, n) ELSE r = -1 /\ Same
(* asking for more than 64 bits is refused once the stream was shrunk *)
GetsLast(id, n, r, v) ==
    IF n <= Len(Q(id))
    THEN /\ Back(id, n)
         /\ IF n <= 64 THEN r = n /\ v = Sub(Q(id), Len(Q(id)) - n + 1, Len(Q(id))) ELSE r = -1
    ELSE r = -1 /\ Same
GetBytes(id, n, ok, v) ==
    /\ ok = (str[id].off = 0 /\ 8 * n <= Len(Q(id)))
    /\ IF ok THEN v = Sub(Q(id), 1, 8 * n) /\ Fwd(id, 8 * n) ELSE Same
SubStream(id, n, out, ok) ==
    /\ ok = (n <= Len(Q(id)))
    /\ UNCHANGED buf
    /\ str' = IF ~ok THEN str
              ELSE [x \in DOMAIN str \cup {out} |->
                      IF x = id THEN [off |-> (str[id].off + n) % 8, q |-> DropFirst(Q(id), n)]
                      ELSE IF x = out THEN [off |-> str[id].off, q |-> Sub(Q(id), 1, n)] ELSE str[x]]
Equals(a, b, r) == r = (Q(a) = Q(b)) /\ Same

(* position of the first (last) bit b among the first (last) bits asked for, 0 *)
First(q, b, max) ==
    LET P == {i \in 1..Len(q) : q[i] = b /\ (max < 0 \/ i <= max)} IN
    IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Last(q, b, max) ==
    LET P == {i \in 1..Len(q) : q[i] = b /\ (max < 0 \/ i > Len(q) - max)} IN
    IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i >= j
Upto(id, b, max, r) ==
    LET p == First(Q(id), b, max) IN IF p = 0 THEN r = -1 /\ Same ELSE r = p - 1 /\ Fwd(id, r)
After(id, b, max, r) ==
    LET p == First(Q(id), b, max) IN IF p = 0 THEN r = -1 /\ Same ELSE r = p /\ Fwd(id, r)
Downto(id, b, max, r) ==
    LET p == Last(Q(id), b, max) IN IF p = 0 THEN r = -1 /\ Same ELSE r = Len(Q(id)) - p /\ Back(id, r)
Before(id, b, max, r) ==
    LET p == Last(Q(id), b, max) IN IF p = 0 THEN r = -1 /\ Same ELSE r = Len(Q(id)) - p + 1 /\ Back(id, r)
SubBit(id, b, out, skip, ok) ==
    LET p == First(Q(id), b, -1) IN
    /\ ok = (p # 0)
    /\ UNCHANGED buf
    /\ str' = IF ~ok THEN str
              ELSE LET n == IF skip THEN p ELSE p - 1 IN
                   [x \in DOMAIN str \cup {out} |->
                      IF x = id THEN [off |-> (str[id].off + n) % 8, q |-> DropFirst(Q(id), n)]
                      ELSE IF x = out THEN [off |-> str[id].off, q |-> Sub(Q(id), 1, p - 1)] ELSE str[x]]
=============================================================================
