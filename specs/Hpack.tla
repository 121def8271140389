------------------------------- MODULE Hpack -------------------------------
(* RFC 7541 header compression as a decoder: what any sequence of bytes     *)
(* means given the dynamic table, which both ends must keep equal.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, HpackTables, Bitwise, TLC
VARIABLES tbl, limit, max, dtbl, dlimit, dmax, pend, ev
(* tbl: the encoder's table, newest first; dtbl: the decoder's; pend: bytes written and not read yet *)
vars == <<tbl, limit, max, dtbl, dlimit, dmax, pend, ev>>
Big == 1073741824
Init ==
    /\ tbl = <<>> /\ limit = 0 /\ max = 0 /\ dtbl = <<>> /\ dlimit = 0 /\ dmax = 0 /\ pend = <<>>
    /\ ev = [op |-> "init"]

(* ---- primitives on bytes; a parser returns the position after what it read, 0 on error ---- *)
Pow2(n) == 2 ^ n
(* integers: prefix of n bits, then 7 bits per byte, at most 8 bytes in all; saturated *)
RECURSIVE Cont(_, _, _, _, _)
Cont(b, p, m, n, acc) ==
    IF p > Len(b) \/ n > 7 THEN [p |-> 0, v |-> 0]
    ELSE LET d == b[p] % 128
             add == IF d = 0 THEN 0 ELSE IF m >= 28 THEN Big ELSE IF m >= 21 /\ d >= 64 THEN Big ELSE d * Pow2(m)
             v == IF acc + add >= Big THEN Big - 256 ELSE acc + add IN
         IF b[p] < 128 THEN [p |-> p + 1, v |-> v]
         ELSE Cont(b, p + 1, m + 7, n + 1, v)
HInt(b, p, n) ==
    IF p > Len(b) THEN [p |-> 0, v |-> 0]
    ELSE LET f == b[p] % Pow2(n) IN
         IF f < Pow2(n) - 1 THEN [p |-> p + 1, v |-> f]
         ELSE LET c == Cont(b, p + 1, 0, 1, 0) IN [p |-> c.p, v |-> c.v + f]

Codes == {<<Huffman[i][1], Huffman[i][2]>> : i \in 1..257}
SymOf == [c \in Codes |-> CHOOSE i \in 0..256 : Huffman[i + 1][1] = c[1] /\ Huffman[i + 1][2] = c[2]]
Bit(x, k) == (x \div Pow2(k)) % 2
BitsOf(s) == [i \in 1..(8 * Len(s)) |-> Bit(s[((i - 1) \div 8) + 1], 7 - ((i - 1) % 8))]
(* the padding is a strict prefix, of less than 8 bits, of the end symbol: all ones *)
Unhuff(s) ==
    LET step(acc, bit) ==
            IF ~acc.ok THEN acc
            ELSE LET c == 2 * acc.c + bit n == acc.n + 1 IN
                 IF <<n, c>> \in Codes
                 THEN LET y == SymOf[<<n, c>>] IN
                      IF y = 256 THEN [acc EXCEPT !.ok = FALSE]
                      ELSE [ok |-> TRUE, c |-> 0, n |-> 0, out |-> Append(acc.out, y)]
                 ELSE [acc EXCEPT !.c = c, !.n = n]
        r == FoldLeft(step, [ok |-> TRUE, c |-> 0, n |-> 0, out |-> <<>>], BitsOf(s)) IN
    [ok |-> r.ok /\ r.n < 8 /\ r.c = Pow2(r.n) - 1, s |-> r.out]
(* string literals *)
Str(b, p) ==
    LET l == HInt(b, p, 7) IN
    IF l.p = 0 \/ l.v > Len(b) - l.p + 1 THEN [p |-> 0, s |-> <<>>, z |-> FALSE, ok |-> FALSE]
    ELSE LET raw == SubSeq(b, l.p, l.p + l.v - 1) z == b[p] >= 128
             u == IF z THEN Unhuff(raw) ELSE [ok |-> TRUE, s |-> raw] IN
         [p |-> l.p + l.v, s |-> u.s, z |-> z, ok |-> u.ok]

(* ---- the dynamic table ---- *)
Size(e) == Len(e.k) + Len(e.v) + 32
Total(t) == FoldLeft(LAMBDA a, e : a + Size(e), 0, t)
RECURSIVE Fit(_, _)
Fit(t, room) == IF Total(t) <= room THEN t ELSE Fit(SubSeq(t, 1, Len(t) - 1), room)
Insert(t, e, lim) == IF Size(e) > lim THEN <<>> ELSE <<e>> \o Fit(t, lim - Size(e))
Entry(t, i) == IF i <= 61 THEN Static[i] ELSE t[i - 61]
None == [ok |-> FALSE, p |-> 0, h |-> [k |-> <<>>, v |-> <<>>], t |-> <<>>, form |-> "none", idx |-> 0, kz |-> FALSE, vz |-> FALSE]

(* one header from position p; form: how it was written *)
Header(b, p, t, lim) ==
    IF p > Len(b) \/ (b[p] >= 32 /\ b[p] < 64) THEN None
    ELSE LET indexed == b[p] >= 128
             add == ~indexed /\ b[p] >= 64
             n == HInt(b, p, IF indexed THEN 7 ELSE IF add THEN 6 ELSE 4)
             form == IF indexed THEN "indexed" ELSE IF add THEN "add" ELSE IF b[p] >= 16 THEN "never" ELSE "noadd" IN
         IF n.p = 0 \/ n.v > 61 + Len(t) \/ (indexed /\ n.v = 0) THEN None
         ELSE IF indexed THEN [None EXCEPT !.ok = TRUE, !.p = n.p, !.h = [k |-> Entry(t, n.v).k, v |-> Entry(t, n.v).v], !.t = t,
                                           !.form = form, !.idx = n.v]
         ELSE LET key == IF n.v = 0 THEN Str(b, n.p) ELSE [p |-> n.p, s |-> Entry(t, n.v).k, z |-> FALSE, ok |-> TRUE] IN
              IF key.p = 0 THEN None
              ELSE LET val == Str(b, key.p)
                       h == [k |-> key.s, v |-> val.s] IN
                   IF val.p = 0 \/ ~key.ok \/ ~val.ok THEN None
                   ELSE [ok |-> TRUE, p |-> val.p, h |-> h, t |-> IF add THEN Insert(t, h, lim) ELSE t,
                         form |-> form, idx |-> n.v, kz |-> key.z, vz |-> val.z]

(* ---- the encoder ---- *)
Lower(s) == [i \in DOMAIN s |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
Has(flags, bit) == (flags \div bit) % 2 = 1
Reset(n) ==
    /\ tbl' = <<>> /\ dtbl' = <<>> /\ limit' = n /\ max' = n /\ dlimit' = n /\ dmax' = n /\ pend' = <<>>
(* a header: what is written must mean that header to a decoder in the same state *)
Encode(k, v, flags, kid, out, size, cnt) ==
    LET r == Header(out, 1, tbl, limit) IN
    /\ r.ok /\ r.p = Len(out) + 1
    /\ r.h.v = v
    /\ r.h.k = k \/ (Lower(r.h.k) = Lower(k) /\ (r.idx # 0 \/ Has(flags, 64)))
    /\ Has(flags, 64) => (r.idx > 0 \/ r.h.k = Lower(k))
    (* what the caller asked for *)
    /\ Has(flags, 16) => r.idx \notin 1..61
    /\ Has(flags, 32) => r.idx <= 61
    /\ Has(flags, 128) => r.form # "indexed"
    /\ Has(flags, 512) /\ ~Has(flags, 1024) => r.form \in {"never", "indexed"}
    /\ Has(flags, 256) /\ ~Has(flags, 1024) => r.form # "add"
    /\ Has(flags, 1024) => r.form \in {"add", "indexed"}
    /\ Has(flags, 1) => ~r.kz
    /\ Has(flags, 4) => ~r.vz
    /\ Has(flags, 8) /\ ~Has(flags, 4) /\ v # <<>> /\ r.form # "indexed" => r.vz
    (* headers without identity are not kept unless asked for *)
    /\ kid = 0 /\ ~Has(flags, 1024) => r.form # "add"
    /\ size = Total(r.t) /\ cnt = Len(r.t)
    /\ tbl' = r.t /\ pend' = pend \o out
    /\ UNCHANGED <<limit, max, dtbl, dlimit, dmax>>
(* a size update *)
Resize(n, out, size, cnt) ==
    LET r == HInt(out, 1, 5) IN
    /\ out[1] >= 32 /\ out[1] < 64 /\ r.p = Len(out) + 1 /\ r.v = n
    /\ limit' = n /\ tbl' = Fit(tbl, n) /\ size = Total(tbl') /\ cnt = Len(tbl')
    /\ pend' = pend \o out
    /\ UNCHANGED <<max, dtbl, dlimit, dmax>>
(* the decoder's settings were accepted *)
Settings(n) == max' = n /\ dmax' = n /\ UNCHANGED <<tbl, limit, dtbl, dlimit, pend>>

(* ---- the decoder, on any bytes; what is left of them is returned ---- *)
DecodeOne(b, ok, k, v, left, size, cnt) ==
    LET upd == b[1] >= 32 /\ b[1] < 64 IN
    IF upd
    THEN LET r == HInt(b, 1, 5) good == r.p # 0 /\ r.v <= dmax IN
         /\ ok = good
         /\ IF good THEN /\ dlimit' = r.v /\ dtbl' = Fit(dtbl, r.v) /\ left = Len(b) - r.p + 1
                         /\ size = Total(dtbl') /\ cnt = Len(dtbl')
            ELSE UNCHANGED <<dtbl, dlimit>>
         /\ UNCHANGED <<tbl, limit, max, dmax>>
    ELSE LET r == Header(b, 1, dtbl, dlimit) IN
         /\ ok = r.ok
         /\ IF r.ok THEN /\ k = r.h.k /\ v = r.h.v /\ left = Len(b) - r.p + 1
                         /\ dtbl' = r.t /\ size = Total(r.t) /\ cnt = Len(r.t)
            ELSE UNCHANGED dtbl
         /\ UNCHANGED <<tbl, limit, max, dlimit, dmax>>
(* what the encoder wrote *)
Transmit(e) ==
    /\ e.b = pend /\ e.ok
    /\ DecodeOne(e.b, e.ok, e.k, e.v, e.left, e.size, e.cnt)
    /\ pend' = SubSeq(pend, Len(pend) - e.left + 1, Len(pend))
    (* both tables are the same once all is read *)
    /\ e.left = 0 => dtbl' = tbl /\ dlimit' = limit
(* anything *)
Forged(e) == DecodeOne(e.b, e.ok, e.k, e.v, e.left, e.size, e.cnt) /\ UNCHANGED pend
(* an entry of the decoder's table, read at rest *)
Peek(i, k, v) == i <= Len(dtbl) /\ dtbl[i].k = k /\ dtbl[i].v = v /\ UNCHANGED <<tbl, limit, max, dtbl, dlimit, dmax, pend>>
=============================================================================
