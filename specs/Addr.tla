------------------------------- MODULE Addr -------------------------------
(* C45: network addresses, filters, URLs and rates.                          *)
EXTENDS Num, FiniteSetsExt

(* ---- filters: the addresses that share the first bits ---- *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
(* the first n bits of both are the same *)
Same(a, b, n) == /\ \A i \in 1..n \div 8 : a[i] = b[i]
                 /\ n % 8 = 0 \/ a[n \div 8 + 1] \div Pow2(8 - (n % 8)) = b[n \div 8 + 1] \div Pow2(8 - (n % 8))
Filter(e) == IF ~e.valid THEN e.ret < 0
             ELSE /\ e.ret = 0
                  /\ e.m = (e.f = e.peer.f /\ e.port \in {0, e.peer.p} /\ Same(e.a, e.peer.a, e.mask))
(* ---- host and port ---- *)
Chr(s, c, i) == LET k == {j \in i..Len(s) : s[j] = c} IN IF k = {} THEN 0 ELSE Min(k)
Split(s) == LET b == Chr(s, 93, 1) c == Chr(s, 58, 1) IN
    IF s # <<>> /\ s[1] = 91 THEN (IF b = 0 THEN [ok |-> FALSE] ELSE [ok |-> TRUE, host |-> SubSeq(s, 2, b - 1), rest |-> Drop(s, b)])
    ELSE IF c = 0 THEN [ok |-> TRUE, host |-> s, rest |-> <<>>]
    ELSE [ok |-> TRUE, host |-> Take(s, c - 1), rest |-> Drop(s, c - 1)]
ParseAddr(e) ==
    LET h == Split(e.s) IN
    IF e.s = <<>> \/ ~h.ok THEN e.ret < 0
    ELSE IF h.rest = <<>> THEN (IF e.defport < 0 THEN e.ret < 0 ELSE e.ret = 0 /\ e.host = h.host /\ e.port = e.defport)
    ELSE LET p == Scan(Tail(h.rest), 10)
             n == IF Len(p.v.d) > 5 THEN 99999 ELSE FoldLeft(LAMBDA a, d : a * 10 + d, 0, p.v.d)
             ok == h.rest[1] = 58 /\ p.any /\ p.next = Len(h.rest) /\ ~p.v.neg /\ n \in e.minport..65535
         IN IF ok THEN e.ret = 0 /\ e.host = h.host /\ e.port = n ELSE e.ret < 0
(* ---- addresses as keys ---- *)
Eq(e) == /\ e.eq = (e.x = e.y) /\ e.qe = e.eq
         /\ e.eq => e.h
(* ---- addresses as texts ---- *)
Dec(n) == IF n = 0 THEN <<48>> ELSE LET d == DecOf(n) IN [i \in 1..Len(d) |-> 48 + d[i]]
V4(a) == Dec(a[1]) \o <<46>> \o Dec(a[2]) \o <<46>> \o Dec(a[3]) \o <<46>> \o Dec(a[4])
Unknown == <<117, 110, 107, 110, 111, 119, 110, 32, 117, 110, 105, 120, 32, 115, 111, 99, 107, 101, 116>>
Fmt(e) ==
    /\ e.len = Len(e.s)
    /\ IF e.x.f = 1 THEN e.s = (IF e.x.a[1] # 0 THEN e.x.a ELSE IF Len(e.x.a) = 1 THEN Unknown ELSE <<64>> \o Tail(e.x.a))
       ELSE /\ e.ret = 0 /\ e.back = e.x
            /\ e.x.f = 4 => e.host = V4(e.x.a) /\ e.s = e.host \o <<58>> \o Dec(e.x.p)
            /\ e.x.f = 6 => e.s = <<91>> \o e.host \o <<93, 58>> \o Dec(e.x.p)
(* ---- URLs: http[s]://[user:pass@]host[:port][/path[?args]], cut to the    *)
(* room of their parts                                                       *)
Sep(c) == c \in {58, 47, 64}
Http == <<104, 116, 116, 112>>
Pre(s, p) == Len(s) >= Len(p) /\ Take(s, Len(p)) = p
Cut(s, n) == Take(s, IF Len(s) < n THEN Len(s) ELSE n - 1)
Upto(s) == LET k == {j \in 1..Len(s) : Sep(s[j])} IN IF k = {} THEN s ELSE Take(s, Min(k) - 1)
No == [ok |-> FALSE]
(* a port at the start of the text, and what follows *)
Port(s) == LET p == Scan(s, 10) v == IF Len(p.v.d) > 5 THEN 99999 ELSE FoldLeft(LAMBDA a, d : a * 10 + d, 0, p.v.d) IN
           IF p.any /\ ~p.v.neg /\ v \in 1..65535 /\ ~Space(s[1]) THEN [ok |-> TRUE, v |-> v, rest |-> Drop(s, p.next - 1)] ELSE No
Url(s, allow) ==
    LET tls == allow /\ Len(s) > 4 /\ s[5] = 115
        t == Drop(s, IF tls THEN 5 ELSE 4)
        u == Drop(t, 3)
        a == Upto(u)
        r == Drop(u, Len(a))
        def == IF tls THEN 443 ELSE 80
        colon(x) == x # <<>> /\ x[1] = 58
        b == IF colon(r) THEN Upto(Tail(r)) ELSE <<>>
        r2 == IF colon(r) THEN Drop(r, 1 + Len(b)) ELSE r
        cred == colon(r) /\ r2 # <<>> /\ r2[1] = 64
        h == IF cred THEN Upto(Tail(r2)) ELSE a
        r3 == IF cred THEN Drop(r2, 1 + Len(h)) ELSE r2
        p == IF cred THEN (IF colon(r3) THEN Port(Tail(r3)) ELSE [ok |-> TRUE, v |-> def, rest |-> r3])
             ELSE IF colon(r) THEN Port(Tail(r)) ELSE [ok |-> TRUE, v |-> def, rest |-> r3]
        q == IF p.ok THEN Chr(p.rest, 63, 1) ELSE 0
    IN IF ~Pre(s, Http) \/ ~Pre(t, <<58, 47, 47>>) \/ u = <<>> \/ ~p.ok THEN No
       ELSE IF h = <<>> \/ (cred /\ (a = <<>> \/ b = <<>>)) \/ (p.rest # <<>> /\ p.rest[1] # 47) THEN No
       ELSE [ok |-> TRUE, host |-> h, port |-> p.v, user |-> IF cred THEN a ELSE <<>>, pass |-> IF cred THEN b ELSE <<>>,
             path |-> IF p.rest = <<>> THEN <<47>> ELSE p.rest,
             noargs |-> IF p.rest = <<>> THEN <<47>> ELSE IF q = 0 THEN p.rest ELSE Take(p.rest, q - 1),
             args |-> IF q = 0 THEN <<>> ELSE Drop(p.rest, q - 1)]
DoUrl(e) == LET u == Url(e.s, e.https) IN
    IF ~u.ok THEN e.ret < 0
    ELSE /\ e.ret = 0 /\ e.port = u.port
         /\ e.user = Cut(u.user, 128) /\ e.pass = Cut(u.pass, 128) /\ e.host = Cut(u.host, 128)
         /\ e.path = Cut(u.path, 512) /\ e.args = Cut(u.args, 512) /\ e.noargs = Cut(u.noargs, 512)
(* ---- rates: every slot has its share, rounded, and nothing is lost ---- *)
Slots(r, n, v) == /\ Len(v) = n
                  /\ FoldLeft(LAMBDA a, x : a + x, 0, v) = r
                  /\ \A i \in 1..n : v[i] \in (r \div n)..((r + n - 1) \div n)
                  (* no prefix is late or early by a whole request *)
                  /\ \A i \in 1..n : FoldLeft(LAMBDA a, x : a + x, 0, Take(v, i)) \in ((i * r) \div n)..((i * r + n - 1) \div n)

AStep(e) == CASE e.op = "filter" -> Filter(e)
              [] e.op = "parse" -> ParseAddr(e)
              [] e.op = "eq" -> Eq(e)
              [] e.op = "fmt" -> Fmt(e)
              [] e.op = "url" -> DoUrl(e)
              [] e.op = "slots" -> Slots(e.rate, e.n, e.v)
              [] OTHER -> FALSE
=============================================================================
