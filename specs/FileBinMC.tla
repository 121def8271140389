---------------------------- MODULE FileBinMC ----------------------------
(* The layout means what it should: read by the documented rules alone, any  *)
(* prefix of the bytes of a file gives exactly its complete records.         *)
EXTENDS FileBin
CONSTANTS Slots, Lens, MaxRecs
Get32(s, p) == s[p + 1] + (256 * s[p + 2]) + (65536 * s[p + 3])
RECURSIVE GetData(_, _, _, _, _)
GetData(f, s, p, n, acc) ==   (* n bytes of data from p *)
    IF n = 0 THEN [ok |-> TRUE, d |-> acc, p |-> p]
    ELSE LET q == IF AtSlot(f, p) THEN p + 4 ELSE p
             k == Min(n, Room(f, q))
         IN IF q + k > Len(s) THEN [ok |-> FALSE]
            ELSE GetData(f, s, q + k, n - k, acc \o SubSeq(s, q + 1, q + k))
RECURSIVE Decode(_, _, _, _)
Decode(f, s, p, acc) ==
    LET p1 == IF Room(f, p) < 4 THEN p + Room(f, p) ELSE p
        p2 == IF AtSlot(f, p1) THEN p1 + 4 ELSE p1
    IN IF p2 + 4 > Len(s) THEN acc
       ELSE LET n == Get32(s, p2)
                d == GetData(f, s, p2 + 4, n, <<>>)
            IN IF d.ok THEN Decode(f, s, d.p, Append(acc, d.d)) ELSE acc
Datas(f, t) == LET w == Cardinality({i \in 1..Len(f.recs) : f.recs[i].e <= t})
               IN [i \in 1..w |-> f.recs[i].b]
Data(n, k) == [i \in 1..n |-> (k + i) % 3]

Next == \/ \E s \in Slots : Create(s, TRUE, s >= 28) /\ ev' = [op |-> "create"]
        \/ \E n \in Lens : /\ Len(A.recs) < MaxRecs /\ A.on
                           /\ \E r \in {Place(A, n, "t", Data(n, Len(A.recs)))} :
                              Put(n, "t", r.b, TRUE, r.e) /\ ev' = [op |-> "put"]
        \/ Truncate(IF Len(A.recs) > 1 THEN A.recs[Len(A.recs) - 1].e ELSE 0, TRUE,
                    IF Len(A.recs) > 1 THEN A.recs[Len(A.recs) - 1].e ELSE 0) /\ ev' = [op |-> "trunc"]
        \/ Close(TRUE, A.cur) /\ ev' = [op |-> "close"]
        \/ Create(64, FALSE, TRUE) /\ ev' = [op |-> "create"]
Spec == Init /\ [][Next]_vars
View == <<A, B, R>>
Img == Bytes(A, Len(A.recs))
Apart == \A i \in 1..Len(A.recs) : \A j \in 1..(i - 1) : A.recs[j].e <= A.recs[i].h
Ends == Len(Img) = (IF A.recs = <<>> THEN 0 ELSE A.cur)
Prefixes == A.recs = <<>> \/ \A t \in HDR..Len(Img) : Decode(A, SubSeq(Img, 1, t), HDR, <<>>) = Datas(A, t)
(* a slot header leads to the first record that starts after it *)
Headers == A.recs = <<>> \/ \A k \in {HDR} \cup {x \in 1..Len(Img) : x % A.slot = 0} :
    (k + 4 <= Len(Img)) => LET t == k + 4 + Get32(Img, k)
                           later == {i \in 1..Len(A.recs) : A.recs[i].h >= k}
                       IN IF later = {} THEN t >= A.cur ELSE \E i \in later : A.recs[i].h = t /\ \A j \in later : i <= j
=============================================================================
