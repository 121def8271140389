----------------------------- MODULE AddrTrace-----------------------------
EXTENDS Addr, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ \E e \in {Trace[l]} : AStep(e) /\ ev' = e
View == l
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
