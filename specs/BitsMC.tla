------------------------------ MODULE BitsMC ------------------------------
(* Small instance: what the two views of the same bits owe each other. *)
EXTENDS Bits
CONSTANT MaxLen
Vals == UNION {[1..n -> {0, 1}] : n \in 0..1}
Ids == {1, 2}
E(o) == ev' = [op |-> o]
Next ==
    \/ \E v \in Vals : Len(buf) + Len(v) <= MaxLen /\ Add(v, Len(buf) + Len(v)) /\ E("add")
    \/ \E n \in 0..2 : ShiftLeft(n, Len(buf) - Min(n, Len(buf))) /\ E("shl")
    \/ \E id \in Ids, st \in 0..2, b \in 0..2 : st + b <= Len(buf) /\ Open(id, st, b) /\ E("open")
    \/ \E id \in DOMAIN str, n \in 0..3, r \in -1..MaxLen :
          \/ Skip(id, n, r) /\ E("skip")
          \/ Shrink(id, n, r) /\ E("shrink")
          \/ Clip(id, n, r) /\ E("clip")
    \/ \E id \in DOMAIN str, r \in -1..8 : SAlign(id, r) /\ E("salign")
    \/ \E id \in DOMAIN str, b \in {0, 1}, m \in {-1, 1, 2}, r \in -1..MaxLen :
          \/ Upto(id, b, m, r) /\ E("upto")
          \/ After(id, b, m, r) /\ E("after")
          \/ Downto(id, b, m, r) /\ E("downto")
          \/ Before(id, b, m, r) /\ E("before")
    \/ \E id \in DOMAIN str : \E out \in Ids \ {id}, n \in 0..3, ok \in BOOLEAN : SubStream(id, n, out, ok) /\ E("sub")
    \/ \E id \in DOMAIN str : \E n \in 0..Min(3, Len(Q(id))), r \in -1..3 :
          \E v \in {Sub(Q(id), 1, n), Sub(Q(id), Len(Q(id)) - n + 1, Len(Q(id)))} :
             \/ Gets(id, n, r, v) /\ E("gets")
             \/ GetsLast(id, n, r, v) /\ E("getsl")
    \/ \E id \in DOMAIN str : Len(buf) + Len(Q(id)) <= MaxLen /\ AddStream(id, Len(buf) + Len(Q(id))) /\ E("addbs")
(* no need to remember which operation came last *)
View == <<buf, str>>
Spec == Init /\ [][Next]_vars
TypeOK == /\ \A i \in 1..Len(buf) : buf[i] \in {0, 1}
          /\ \A id \in DOMAIN str : str[id].off \in 0..7 /\ \A i \in 1..Len(Q(id)) : Q(id)[i] \in {0, 1}
(* reading never lengthens a stream, writing never touches one *)
Shrinks == [][\A id \in DOMAIN str : ev'.op \in {"skip", "shrink", "clip", "salign", "upto", "after", "downto", "before", "gets", "getsl"}
                 => Len(str'[id].q) <= Len(str[id].q)]_vars
(* every search leaves the bit asked for at the edge it stopped at *)
BufOnly == [][ev'.op \in {"add", "shl", "addbs"} => str' = str]_vars
StreamOnly == [][ev'.op \notin {"add", "shl", "addbs"} => buf' = buf]_vars
=============================================================================
