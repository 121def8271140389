----------------------------- MODULE MPSCTrace ------------------------------
EXTENDS MPSC, VPTrace, Sequences, TLC
VARIABLE l
TraceInit == InitWith("comb", 0) /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "reset" -> Reset(e.kind, e.n)
            [] e.op = "push" -> Push(e.i)
            [] e.op = "pushed" -> Pushed(e.i, e.r)
            [] e.op = "drain" -> Drain(e.t)
            [] e.op = "deliver" -> Deliver(e.i, e.t)
            [] e.op = "drained" -> Drained(e.t)
            [] e.op = "free" -> Free(e.i)
            [] e.op = "pop0" -> Pop0
            [] e.op = "pop1" -> Pop1(e.i)
            [] e.op = "looks" -> Looks(e.r)
            [] e.op = "end" -> End
            [] OTHER -> FALSE
       /\ ev' = e
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
