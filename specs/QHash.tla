------------------------------- MODULE QHash -------------------------------
(* Hash sets and maps: a partial function from keys to (key object, value).  *)
(* Whatever the table's size, fill, pending resize, ghosts or seal, each     *)
(* operation observes exactly this function.  Keys are 0..NK-1; kv is the    *)
(* version of the key object held by the table (0: the key is absent), vv    *)
(* its value; n the number of keys held.                                     *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT NK
VARIABLES kv, vv, n, sealed, ev
vars == <<kv, vv, n, sealed, ev>>

Keys == 0 .. NK - 1
B2I(b) == IF b THEN 1 ELSE 0

Init == /\ kv = [k \in Keys |-> 0]
        /\ vv = [k \in Keys |-> 0]
        /\ n = 0
        /\ sealed = FALSE
        /\ ev = [op |-> "init"]

Reset == /\ kv' = [k \in Keys |-> 0]
         /\ vv' = [k \in Keys |-> 0]
         /\ n' = 0
         /\ sealed' = FALSE
         /\ ev' = [op |-> "reset", len |-> 0]

(* add (over = FALSE) keeps the existing entry, replace overwrites both the key and the value *)
Put(k, v1, v, over) ==
    /\ ~sealed
    /\ LET present == kv[k] # 0
           write == over \/ ~present
       IN /\ kv' = IF write THEN [kv EXCEPT ![k] = v1] ELSE kv
          /\ vv' = IF write THEN [vv EXCEPT ![k] = v] ELSE vv
          /\ n' = n + B2I(~present)
          /\ ev' = [op |-> "put", over |-> over, k |-> k, kv |-> v1, v |-> v,
                    r |-> IF present THEN -1 ELSE 0, len |-> n']
    /\ UNCHANGED sealed

InRange(k, lo, hi, st) == k >= lo /\ k <= hi /\ (k - lo) % st = 0

(* a batch of puts of the keys lo, lo + st, ... ; v0 < 0: a set, no values *)
PutRange(lo, hi, st, v1, v0, over) ==
    /\ ~sealed
    /\ LET fresh == {k \in lo .. hi : InRange(k, lo, hi, st) /\ kv[k] = 0}
       IN /\ kv' = [k \in Keys |-> IF InRange(k, lo, hi, st) /\ (over \/ kv[k] = 0)
                                   THEN v1 ELSE kv[k]]
          /\ vv' = [k \in Keys |-> IF InRange(k, lo, hi, st) /\ (over \/ kv[k] = 0)
                                   THEN (IF v0 < 0 THEN 0 ELSE v0 + k) ELSE vv[k]]
          /\ n' = n + Cardinality(fresh)
          /\ ev' = [op |-> "putr", over |-> over, lo |-> lo, hi |-> hi, st |-> st,
                    kv |-> v1, v0 |-> v0, r |-> Cardinality(fresh), len |-> n']
    /\ UNCHANGED sealed

Find(k) ==
    /\ ev' = [op |-> "find", k |-> k, found |-> kv[k] # 0,
              sk |-> IF kv[k] # 0 THEN k ELSE -1, skv |-> kv[k],
              sv |-> IF kv[k] # 0 THEN vv[k] ELSE 0, len |-> n]
    /\ UNCHANGED <<kv, vv, n, sealed>>

FindRange(lo, hi, st) ==
    /\ ev' = [op |-> "findr", lo |-> lo, hi |-> hi, st |-> st,
              vs |-> [i \in 1 .. 1 + (hi - lo) \div st |->
                        LET k == lo + (i - 1) * st IN IF kv[k] = 0 THEN -1 ELSE vv[k]],
              len |-> n]
    /\ UNCHANGED <<kv, vv, n, sealed>>

Del(k) ==
    /\ ~sealed
    /\ kv' = [kv EXCEPT ![k] = 0]
    /\ n' = n - B2I(kv[k] # 0)
    /\ ev' = [op |-> "del", k |-> k, r |-> IF kv[k] # 0 THEN 0 ELSE -1, len |-> n']
    /\ UNCHANGED <<vv, sealed>>

DelRange(lo, hi, st) ==
    /\ ~sealed
    /\ LET gone == {k \in lo .. hi : InRange(k, lo, hi, st) /\ kv[k] # 0}
       IN /\ kv' = [k \in Keys |-> IF InRange(k, lo, hi, st) THEN 0 ELSE kv[k]]
          /\ n' = n - Cardinality(gone)
          /\ ev' = [op |-> "delr", lo |-> lo, hi |-> hi, st |-> st,
                    r |-> Cardinality(gone), len |-> n']
    /\ UNCHANGED <<vv, sealed>>

(* An enumeration visits every key exactly once, in no particular order, even *)
(* when it deletes the entries it visits (those congruent to rem).            *)
IterOk(ks) == /\ Len(ks) = n
              /\ {ks[i] : i \in 1 .. Len(ks)} = {k \in Keys : kv[k] # 0}
Iter(ks, mod, rem) ==
    /\ IterOk(ks)
    /\ mod > 0 => ~sealed
    /\ LET gone == IF mod = 0 THEN {} ELSE {k \in Keys : kv[k] # 0 /\ k % mod = rem}
       IN /\ kv' = IF mod = 0 THEN kv ELSE [k \in Keys |-> IF k % mod = rem THEN 0 ELSE kv[k]]
          /\ n' = n - Cardinality(gone)
          /\ ev' = [op |-> "iter", mod |-> mod, rem |-> rem, ks |-> ks, len |-> n']
    /\ UNCHANGED <<vv, sealed>>

Clear == /\ ~sealed
         /\ kv' = [k \in Keys |-> 0]
         /\ n' = 0
         /\ ev' = [op |-> "clear", len |-> 0]
         /\ UNCHANGED <<vv, sealed>>

MinSize == /\ ~sealed
           /\ ev' = [op |-> "minsize", len |-> n]
           /\ UNCHANGED <<kv, vv, n, sealed>>

Seal == /\ ~sealed
        /\ sealed' = TRUE
        /\ ev' = [op |-> "seal", len |-> n]
        /\ UNCHANGED <<kv, vv, n>>

Unseal == /\ sealed
          /\ sealed' = FALSE
          /\ ev' = [op |-> "unseal", len |-> n]
          /\ UNCHANGED <<kv, vv, n>>

----------------------------------------------------------------------------
LenIsCount == n = Cardinality({k \in Keys : kv[k] # 0})
SealedIsFrozen == [][sealed /\ sealed' => UNCHANGED <<kv, vv, n>>]_vars
=============================================================================
