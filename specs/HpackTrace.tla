----------------------------- MODULE HpackTrace -----------------------------
EXTENDS Hpack, VPTrace
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "reset" -> Reset(e.n)
            [] e.op = "enc" -> Encode(e.k, e.v, e.flags, e.kid, e.out, e.size, e.cnt)
            [] e.op = "dts" -> Resize(e.n, e.out, e.size, e.cnt)
            [] e.op = "max" -> Settings(e.n)
            [] e.op = "recv" -> Transmit(e)
            [] e.op = "forged" -> Forged(e)
            [] e.op = "peek" -> Peek(e.i, e.k, e.v)
            [] OTHER -> FALSE
       /\ ev' = e
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
