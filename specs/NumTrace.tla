----------------------------- MODULE NumTrace -----------------------------
EXTENDS Num, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ \E e \in {Trace[l]} : Step(e) /\ ev' = e
View == l
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
