------------------------------ MODULE FileBin ------------------------------
(* Files of binary records cut in slots.                                     *)
(*   bytes 0..15 signature, 16..19 slot size; a slot starts right after this *)
(* header and at every multiple of the slot size, with four bytes that give  *)
(* the distance to the next record; a record is its length (four bytes,      *)
(* never cut) then its data, which runs over as many slots as needed.  When  *)
(* fewer than four bytes remain in a slot the next record is put in the next *)
(* one.  Files of the previous version (ver 0) have neither the header nor   *)
(* slot headers; a record is in one slot of one megabyte, the rest is zero.  *)
(*                                                                           *)
(* A is the file as written by the library.  B is what a reader can see: a   *)
(* prefix of A, at any byte, growing, possibly damaged.                      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES A, B, R, ev
vars == <<A, B, R, ev>>

HDR == 20
MB == 1048576
None == "none"
NoFile == [on |-> FALSE, ver |-> 1, slot |-> 0, recs |-> <<>>, cur |-> 0]
NoB == [on |-> FALSE, ver |-> 1, slot |-> 0, recs |-> <<>>, len |-> 0, full |-> 0, bad |-> [k |-> "no"]]
NoR == [on |-> FALSE, len |-> 0, i |-> 0]

(* ---- layout ---- *)
AtSlot(f, p) == IF f.ver = 0 THEN FALSE ELSE p % f.slot = 0 \/ p = HDR
Room(f, p) == f.slot - (p % f.slot)
(* where n bytes put at p end, slot headers included *)
RECURSIVE Adv(_, _, _)
Adv(f, p, n) ==
    IF n = 0 THEN p
    ELSE LET q == IF AtSlot(f, p) THEN p + 4 ELSE p
             r == Room(f, q)
         IN IF n <= r THEN q + n ELSE Adv(f, q + r, n - r)
(* where the length of a record put at p is *)
Start(f, p, n) ==
    LET p0 == IF p = 0 /\ f.ver > 0 THEN HDR ELSE p
        r == Room(f, p0)
        p1 == IF r < 4 \/ (f.ver = 0 /\ r < n + 4) THEN p0 + r ELSE p0
    IN IF AtSlot(f, p1) THEN p1 + 4 ELSE p1
(* where the record following one that ends at e would be *)
NextEntry(f, e) == LET r == IF e % f.slot = 0 THEN 0 ELSE Room(f, e) IN IF r < 4 THEN e + r + 4 ELSE e
Place(f, n, tok, b) ==
    LET h == Start(f, f.cur, n) IN [h |-> h, e |-> Adv(f, h + 4, n), n |-> n, tok |-> tok, b |-> b]
ToksOf(s) == [i \in 1..Len(s) |-> s[i].tok]

LE(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, v \div 16777216>>
Sig == <<73, 83, 95, 98, 105, 110, 97, 114, 121, 47, 118, 48, 49, 46, 48, 0>>
(* the bytes of a file, record by record *)
Pad(s, p) == s \o [i \in 1..(p - Len(s)) |-> 0]
RECURSIVE PutBytes(_, _, _, _)
PutBytes(f, s, d, next) ==
    IF d = <<>> THEN s
    ELSE LET t == IF AtSlot(f, Len(s)) THEN s \o LE(next - (Len(s) + 4)) ELSE s
             r == Room(f, Len(t))
         IN IF Len(d) <= r THEN t \o d
            ELSE PutBytes(f, t \o SubSeq(d, 1, r), SubSeq(d, r + 1, Len(d)), next)
AddRec(f, s, r) ==
    LET s0 == IF s = <<>> /\ f.ver > 0 THEN Sig \o LE(f.slot) ELSE s
        s1 == IF f.ver > 0 /\ AtSlot(f, r.h - 4) /\ Len(s0) <= r.h - 4
              THEN Pad(s0, r.h - 4) \o LE(0) ELSE Pad(s0, r.h)
    IN PutBytes(f, s1 \o LE(r.n), r.b, NextEntry(f, r.e))
RECURSIVE Bytes(_, _)
Bytes(f, k) == IF k = 0 THEN <<>> ELSE AddRec(f, Bytes(f, k - 1), f.recs[k])

(* ---- writing ---- *)
Init == A = NoFile /\ B = NoB /\ R = NoR /\ ev = [op |-> "init"]
Reset == A' = NoFile /\ B' = NoB /\ R' = NoR
Old(n, tok, b) ==
    /\ A' = [NoFile EXCEPT !.ver = 0, !.slot = MB, !.cur = 4 + n,
                           !.recs = <<[h |-> 0, e |-> 4 + n, n |-> n, tok |-> tok, b |-> b]>>]
    /\ UNCHANGED <<B, R>>
Create(slot, tr, ok) ==
    /\ ~A.on
    /\ LET new == tr \/ A.cur = 0 IN
       /\ ok = (~new \/ slot >= 28)
       /\ A' = IF ~new THEN [A EXCEPT !.on = TRUE]
               ELSE IF ok THEN [NoFile EXCEPT !.on = TRUE, !.slot = slot]
               ELSE NoFile
    /\ UNCHANGED <<B, R>>
Put(n, tok, b, ok, cur) ==
    /\ A.on /\ ok
    /\ A.ver = 0 => (n > 0 /\ n + 4 <= A.slot)
    /\ \E r \in {Place(A, n, tok, b)} :
       /\ cur = r.e
       /\ A' = [A EXCEPT !.recs = Append(@, r), !.cur = r.e]
    /\ UNCHANGED <<B, R>>
Flush(ok, size) == A.on /\ ok /\ size = A.cur /\ UNCHANGED <<A, B, R>>
Truncate(pos, ok, size) ==
    /\ A.on /\ ok /\ size = pos
    /\ pos = 0 \/ \E i \in 1..Len(A.recs) : A.recs[i].e = pos
    /\ A' = [A EXCEPT !.recs = SelectSeq(@, LAMBDA r : r.e <= pos), !.cur = pos]
    /\ UNCHANGED <<B, R>>
Close(ok, size) == A.on /\ ok /\ size = A.cur /\ A' = [A EXCEPT !.on = FALSE] /\ UNCHANGED <<B, R>>
Image(c) ==
    /\ \A i \in 1..Len(A.recs) : Len(A.recs[i].b) = A.recs[i].n
    /\ c = Bytes(A, Len(A.recs))
    /\ UNCHANGED <<A, B, R>>

(* ---- reading ---- *)
Snap(n, size) ==
    /\ size = A.cur /\ n <= size
    /\ B' = [on |-> TRUE, ver |-> A.ver, slot |-> A.slot, recs |-> A.recs, len |-> n, full |-> size, bad |-> [k |-> "no"]]
    /\ R' = NoR /\ UNCHANGED A
Grow(n) == B.on /\ B.len + n <= B.full /\ B' = [B EXCEPT !.len = @ + n] /\ UNCHANGED <<A, R>>
Open(ok) ==
    /\ B.on
    /\ B.bad.k = "any" \/ ok = (B.len = 0 \/ B.len >= HDR)
    /\ R' = IF ok THEN [on |-> TRUE, len |-> B.len, i |-> 0] ELSE NoR
    /\ UNCHANGED <<A, B>>
Refresh(ok) ==
    /\ R.on
    /\ B.bad.k = "any" \/ ok = (R.len = B.len \/ B.len >= HDR)
    /\ R' = IF ok THEN [R EXCEPT !.len = B.len] ELSE R
    /\ UNCHANGED <<A, B>>
(* the number of records that are complete in the part the reader knows *)
Whole == Cardinality({i \in 1..Len(B.recs) : B.recs[i].e <= R.len})
LastEnd == IF Whole = 0 THEN 0 ELSE B.recs[Whole].e
FinOK(fin, i) ==
    /\ fin => i = Whole
    /\ (i = Whole /\ (R.len = LastEnd \/ R.len = 0)) => fin
Next1(r, fin) ==
    /\ R.on /\ B.bad.k \in {"no", "any"}
    /\ IF B.bad.k = "any" THEN UNCHANGED R
       ELSE IF R.i < Whole
       THEN /\ r = B.recs[R.i + 1].tok
            /\ FinOK(fin, R.i + 1) /\ R' = [R EXCEPT !.i = @ + 1]
       ELSE r = None /\ FinOK(fin, R.i) /\ UNCHANGED R
    /\ UNCHANGED <<A, B>>
Rewind(ok) == R.on /\ ok /\ R' = [R EXCEPT !.i = 0] /\ UNCHANGED <<A, B>>
Min(a, b) == IF a < b THEN a ELSE b
Last(n, ok, r) ==
    /\ R.on /\ ok
    /\ B.bad.k # "no" \/
       LET k == IF n < 0 THEN Whole ELSE Min(n, Whole)
       IN r = [j \in 1..k |-> B.recs[Whole + 1 - j].tok]
    /\ UNCHANGED <<A, B, R>>

(* ---- damage ---- *)
SlotOf(p) == p \div B.slot
(* bytes of B that are neither in the file header nor in a slot header *)
Plain(p) == p >= HDR + 4 /\ p % B.slot >= 4
Damage(off, n, v) ==
    /\ B.on /\ off + n <= B.len /\ ~R.on /\ n > 0
    /\ LET hit == {i \in 1..Len(B.recs) : B.recs[i].h < off + n /\ off < B.recs[i].e}
           one == CHOOSE i \in hit : TRUE
           rec == B.recs[one]
           ne == Adv(B, rec.h + 4, v)
           kind == IF B.bad.k # "no" \/ Cardinality(hit) # 1 \/ B.ver = 0 THEN [k |-> "any"]
                   ELSE IF off >= rec.h + 4 /\ \A p \in off..(off + n - 1) : Plain(p)
                   THEN [k |-> "data", i |-> one]
                   ELSE IF off = rec.h /\ n = 4 /\ v = -1 THEN [k |-> "long", i |-> one, at |-> off]
                   ELSE IF off = rec.h /\ n = 4 /\ v > 0 /\ v <= B.len /\ (off + 4) % B.slot # 0
                           /\ SlotOf(ne - 1) > SlotOf(off) /\ ne <= B.len
                           /\ \A i \in 1..Len(B.recs) : NextEntry(B, ne) # NextEntry(B, B.recs[i].e)
                   THEN [k |-> "span", i |-> one, at |-> off]
                   ELSE [k |-> "any"]
       IN B' = [B EXCEPT !.bad = kind]
    /\ UNCHANGED <<A, R>>
Raw == B' = [NoB EXCEPT !.on = TRUE, !.bad = [k |-> "any"]] /\ R' = NoR /\ UNCHANGED A
(* everything read from the start: what is intact is read, in order *)
From(slotno) == {i \in 1..Whole : i > B.bad.i /\ SlotOf(B.recs[i].h) >= slotno}
Toks(i, S) == SelectSeq([j \in 1..Whole |-> <<j, B.recs[j].tok>>], LAMBDA x : x[1] < i \/ x[1] \in S)
Seconds(s) == [j \in 1..Len(s) |-> s[j][2]]
All(r, fin) ==
    /\ R.on
    /\ CASE B.bad.k = "no" -> /\ r = SubSeq(ToksOf(B.recs), R.i + 1, Whole)
                              /\ FinOK(fin, Whole)
                              /\ R' = [R EXCEPT !.i = Whole]
         [] B.bad.k = "any" -> UNCHANGED R
         (* the data of one record: the others are not concerned *)
         [] B.bad.k = "data" -> /\ R.i = 0 /\ Len(r) = Whole
                                /\ \A j \in 1..Whole : j = B.bad.i \/ r[j] = B.recs[j].tok
                                /\ R' = [R EXCEPT !.on = FALSE]
         (* the length, now beyond the end of the file: reading resumes at the next slot *)
         [] B.bad.k = "long" -> /\ R.i = 0
                                /\ r = Seconds(Toks(B.bad.i, From(SlotOf(B.bad.at + 4 - 1) + 1)))
                                /\ R' = [R EXCEPT !.on = FALSE]
         (* the length, now that of a record that reaches the next slot: contradicted
            by the header of that slot; reading resumes there or at the one after *)
         [] B.bad.k = "span" -> /\ R.i = 0
                                /\ r \in {Seconds(Toks(B.bad.i, From(SlotOf(B.bad.at) + k))) : k \in {1, 2}}
                                /\ R' = [R EXCEPT !.on = FALSE]
    /\ UNCHANGED <<A, B>>
=============================================================================
