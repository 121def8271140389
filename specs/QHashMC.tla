------------------------------ MODULE QHashMC ------------------------------
EXTENDS QHash, SequencesExt
CONSTANTS MaxKv, MaxV
Next == \/ \E k \in Keys, v1 \in 1 .. MaxKv, v \in 1 .. MaxV, o \in BOOLEAN : Put(k, v1, v, o)
        \/ \E k \in Keys : Find(k) \/ Del(k)
        \/ \E m \in {0, 2} : \E r \in 0 .. 1 :
              (m = 0 => r = 0) /\ Iter(SetToSeq({k \in Keys : kv[k] # 0}), m, r)
        \/ PutRange(0, NK - 1, 1, 1, 1, FALSE)
        \/ PutRange(0, NK - 1, 1, 1, 1, TRUE)
        \/ DelRange(0, NK - 1, 2)
        \/ FindRange(0, NK - 1, 1)
        \/ Clear \/ MinSize \/ Seal \/ Unseal
Spec == Init /\ [][Next]_vars
=============================================================================
