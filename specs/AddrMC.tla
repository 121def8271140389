------------------------------ MODULE AddrMC ------------------------------
(* laws of the filters, of the URLs and of the shares of a rate              *)
EXTENDS Addr
Bytes == {0, 1, 127, 128, 255}
Chars == {97, 58, 64, 47, 63, 49}
Next == /\ ev = <<>>
        /\ \/ \E a, b \in [1..2 -> Bytes] : ev' = <<"f", SubSeq(a, 1, 2), SubSeq(b, 1, 2)>>
           \/ \E n \in 0..5 : \E t \in [1..n -> Chars] : ev' = <<"u", SubSeq(t, 1, n)>>
           \/ \E r \in 0..60, n \in 1..12 : ev' = <<"r", r, n>>
Spec == Init /\ [][Next]_vars
K(k) == ev # <<>> /\ ev[1] = k
(* a wider filter accepts more, and the whole address is itself *)
Wider == K("f") => /\ \A n \in 1..16 : Same(ev[2], ev[3], n) => Same(ev[2], ev[3], n - 1)
                   /\ Same(ev[2], ev[3], 16) <=> ev[2] = ev[3]
                   /\ Same(ev[2], ev[3], 0)
(* the first n bits are those of the quotient by the power of two *)
Bits == K("f") => \A n \in 0..16 : LET v(a) == (a[1] * 256 + a[2]) \div Pow2(16 - n) IN Same(ev[2], ev[3], n) <=> v(ev[2]) = v(ev[3])
(* an accepted URL is the one its parts write, but for the implied ones *)
H == Http \o <<58, 47, 47>>
Rebuild == K("u") => LET u == Url(H \o ev[2], FALSE) IN u.ok =>
    LET c == IF u.user = <<>> THEN <<>> ELSE u.user \o <<58>> \o u.pass \o <<64>>
        ps == {<<>>, <<47>>} x == {<<>>, <<58, 48>> \o Dec(u.port), <<58>> \o Dec(u.port)}
    IN /\ u.path = u.noargs \o u.args
       /\ \E p \in x, t \in {u.path, <<>>} : (t = u.path \/ u.path = <<47>>) /\ ev[2] = c \o u.host \o p \o t
       /\ u.path[1] = 47 /\ \A i \in 1..Len(u.host) : ~Sep(u.host[i])
(* a secure URL differs by its default port only *)
Tls == K("u") => LET u == Url(H \o ev[2], TRUE) s == Url(Http \o <<115, 58, 47, 47>> \o ev[2], TRUE) IN
       u.ok = s.ok /\ (u.ok => s = [u EXCEPT !.port = IF s.port = 443 /\ u.port = 80 THEN 443 ELSE @])
NoTls == K("u") => ~Url(Http \o <<115, 58, 47, 47>> \o ev[2], FALSE).ok
(* the shares exist *)
Shares == K("r") => LET r == ev[2] n == ev[3] IN Slots(r, n, SubSeq([i \in 1..n |-> (i * r) \div n - ((i - 1) * r) \div n], 1, n))
=============================================================================
