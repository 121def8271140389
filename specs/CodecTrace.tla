----------------------------- MODULE CodecTrace -----------------------------
EXTENDS Codec, VPTrace, TLC
VARIABLE l
TraceInit == ev = [op |-> "none"] /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} : Step(e) /\ ev' = e
View == l
TraceSpec == TraceInit /\ [][TraceNext]_<<ev, l>>
=============================================================================
