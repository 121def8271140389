------------------------------ MODULE HpackMC ------------------------------
(* Small instance: an encoder free to choose among all the representations   *)
(* of a header, with any delay between writing and reading.                  *)
EXTENDS Hpack
CONSTANT MaxPend
K == {<<97>>, <<98>>}
V == {<<>>, <<99>>}
Hs == {[k |-> k, v |-> v] : k \in K, v \in V}
Raw(s) == <<Len(s)>> \o s
(* what may be written for h; 63 entries or less: one byte of index, but for the 4-bit prefix *)
Idx(i, bits, mask) == IF i < Pow2(bits) - 1 THEN <<mask + i>> ELSE <<mask + Pow2(bits) - 1, i - (Pow2(bits) - 1)>>
Named(h) == {0} \cup {61 + i : i \in {j \in 1..Len(tbl) : tbl[j].k = h.k}}
Full(h) == {61 + i : i \in {j \in 1..Len(tbl) : tbl[j] = h}}
Lit(h, i, bits, mask) == Idx(i, bits, mask) \o (IF i = 0 THEN Raw(h.k) ELSE <<>>) \o Raw(h.v)
Writings(h) == {Idx(i, 7, 128) : i \in Full(h)} \cup {Lit(h, i, 6, 64) : i \in Named(h)} \cup {Lit(h, i, 4, 0) : i \in Named(h)}
               \cup {Lit(h, i, 4, 16) : i \in Named(h)}
E(o) == ev' = [op |-> o]
Sizes == {0, 34, 66, 68}
Next ==
    \/ ev.op = "init" /\ (\E n \in Sizes : Reset(n)) /\ E("reset")
    \/ /\ ev.op # "init"
       /\ \/ \E h \in Hs : \E out \in Writings(h) :
                LET t == Header(out, 1, tbl, limit).t IN
                /\ Len(pend) + Len(out) <= MaxPend
                /\ Encode(h.k, h.v, IF out[1] >= 64 /\ out[1] < 128 THEN 1024 ELSE 0, 1, out, Total(t), Len(t)) /\ E("enc")
          \/ \E n \in Sizes : n <= max /\ Len(pend) < MaxPend - 1 /\ E("dts")
                /\ Resize(n, Idx(n, 5, 32), Total(Fit(tbl, n)), Len(Fit(tbl, n)))
          \/ pend = <<>> /\ (\E n \in Sizes : n >= limit /\ Settings(n)) /\ E("max")
          \/ /\ pend # <<>>
             /\ LET u == pend[1] >= 32 /\ pend[1] < 64
                    i == HInt(pend, 1, 5)
                    r == Header(pend, 1, dtbl, dlimit)
                    t == IF u THEN Fit(dtbl, i.v) ELSE r.t
                    ok == IF u THEN i.p # 0 /\ i.v <= dmax ELSE r.ok IN
                (* a peer that refuses, or a table which differs at rest, is caught by ReadsAll *)
                Transmit([b |-> pend, ok |-> ok, k |-> r.h.k, v |-> r.h.v, left |-> Len(pend) - (IF u THEN i.p ELSE r.p) + 1,
                          size |-> Total(t), cnt |-> Len(t)])
             /\ E("recv")
View == <<tbl, limit, max, dtbl, dlimit, dmax, pend, ev.op = "init">>
Spec == Init /\ [][Next]_vars
(* tables stay within what was agreed *)
Bounded == Total(tbl) <= limit /\ Total(dtbl) <= dlimit /\ limit <= max /\ dlimit <= dmax
(* whatever was written can be read by the peer *)
ReadsAll == pend # <<>> => ENABLED (Next /\ ev'.op = "recv")
(* at rest both ends hold the same table *)
Synced == pend = <<>> => tbl = dtbl /\ limit = dlimit
=============================================================================
