------------------------------- MODULE HatMC -------------------------------
(* Small instance: two keys, one block, snapshots and crashes at any moment. *)
EXTENDS Hat
CONSTANTS Keys, MaxSnap, Nul
E(o) == ev' = [op |-> o]
X(k, end) == [k |-> k, end |-> end, v |-> 1]
Next ==
    \/ \E k \in {"hat", "bm"} : New(0, k, Nul) /\ E("new")
    \/ Has(0) /\
       \/ Destroy(0) /\ E("destroy")
       \/ Clear(0) /\ E("clear")
       \/ \E k \in Keys, r \in 0..2 : \/ Set(0, k, 1, r) /\ E("set")
                                      \/ Set0(0, k, Val(0, k), r) /\ E("set0")
                                      \/ Rem(0, k, Val(0, k), r) /\ E("rem")
       \/ \E k, k2 \in Keys, end \in BOOLEAN : Enum(0, 0, k, X(k2, end)) /\ E("en")
    \/ 0 \in DOMAIN ens /\ \E k \in Keys, end \in BOOLEAN :
       \/ Next_(0, X(k, end)) /\ E("next")
       \/ \E to \in Keys : Goto(0, to, X(k, end)) /\ E("goto")
    \/ Alloc(0, 8, 1, TRUE, 1) /\ E("alloc")
    \/ Write(0, 2, TRUE) /\ E("mwrite")
    \/ Free(0, TRUE) /\ E("mfree")
    \/ num < MaxSnap /\ Snap(num + 1) /\ E("snap")
    \/ \E n \in 0..MaxSnap : Snapped(n) /\ E("snapped")
    \/ \E c \in BOOLEAN, n \in 0..MaxSnap : Reopen(c, TRUE, n) /\ E("reopen")
Spec == Init /\ [][Next]_vars
View == <<objs, ens, mem, saved, done, going, num>>
TypeOK == /\ \A o \in DOMAIN objs : \A p, q \in M(o) : p[1] = q[1] => p = q
          /\ done \in DOMAIN saved /\ (going # 0 => going \in DOMAIN saved) /\ done <= num
(* without null entries no stored value is zero *)
NoZero == \A o \in DOMAIN objs : ~objs[o].nul => \A p \in M(o) : p[2] # 0
(* an enumerator only ever moves forward *)
Forward == [][ev'.op \in {"next", "goto"} => \/ ens'[0].end \/ ens'[0].k >= ens[0].k]_vars
(* nothing but a crash or a reopening brings back the past, and it brings back a whole snapshot *)
Whole == [][ev'.op = "reopen" => \E n \in DOMAIN saved : objs' = saved[n].objs /\ mem' = saved[n].mem]_vars
(* a completed snapshot is never lost *)
Durable == [][ev'.op = "reopen" => num' >= done]_vars
Frozen == [][\A n \in DOMAIN saved \cap DOMAIN saved' : saved'[n] = saved[n]]_vars
=============================================================================
