------------------------------ MODULE PoolMC ------------------------------
EXTENDS Pool
CONSTANTS MaxId, Room, Kinds
P == 1
Next ==
    \/ \E k \in Kinds : NewPool(P, k) /\ ev' = [op |-> "pool"]
    \/ /\ P \in DOMAIN kind
       /\ \/ \E id \in 1..MaxId, n \in 0..2, l \in 0..(Room - 1), z \in BOOLEAN :
               /\ l + n <= Room
               /\ Alloc(P, id, n, 1, z, IF z THEN Norm(<< <<0, n>> >>) ELSE <<>>, id, 0, l, l, Room)
               /\ ev' = [op |-> "alloc"]
          \/ \E id \in DOMAIN live, n \in 0..3, l \in 0..(Room - 1), z \in BOOLEAN, c \in {Norm(Take(live[i].runs, m) \o x) : i \in DOMAIN live, m \in 0..3, x \in {<<>>, << <<0, 1>> >>, << <<0, 2>> >>}} :
               /\ l + n <= Room
               /\ Realloc(id, n, z, c, 9, 0, l, l, Room)
               /\ ev' = [op |-> "realloc"]
          \/ \E id \in DOMAIN live : /\ kind[live[id].pool] = "fifo"
                                     /\ Free(id, live[id].runs) /\ ev' = [op |-> "free"]
          \/ Len(frames[P]) < 2 /\ \E f \in 1..3 : f \notin Range(frames[P]) /\ (\/ Push(P, f) \/ NewFrame(P, f)) /\ ev' = [op |-> "frame"]
          \/ Pop(P, TRUE) /\ ev' = [op |-> "pop"]
          \/ Seal(P, TRUE) /\ ev' = [op |-> "seal"]
          \/ \E f \in 1..3 : Release(f) /\ ev' = [op |-> "release"]
          \/ \E k \in 1..1 : k \notin DOMAIN ckpts /\ Checkpoint(P, k) /\ ev' = [op |-> "ckpt"]
          \/ \E k \in 1..1 : Rewind(k) /\ ev' = [op |-> "rewind"]
          \/ Delete(P) /\ ev' = [op |-> "delete"]
Spec == Init /\ [][Next]_vars
(* nothing but its owner changes an allocation or ends its life *)
OnlyOwner == [][\A a \in DOMAIN live :
                  \/ ev'.op \in {"release", "rewind", "pop", "free", "delete"}
                  \/ /\ a \in DOMAIN live'
                     /\ ev'.op = "realloc" \/ live'[a] = live[a]]_vars
===========================================================================
