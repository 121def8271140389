------------------------------ MODULE IopTrace ------------------------------
EXTENDS Iop, VPTrace, TLC
VARIABLE l
TraceInit == ev = [op |-> "none"] /\ l = 1 /\ slot = [s \in Slots |-> None]
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} : Step(e) /\ ev' = e
View == l
TraceSpec == TraceInit /\ [][TraceNext]_<<ev, l, slot>>
=============================================================================
