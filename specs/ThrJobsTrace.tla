---------------------------- MODULE ThrJobsTrace ----------------------------
EXTENDS ThrJobs, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "reset" -> Reset
            [] e.op = "post" -> Post(e.how, e.q, e.j, e.s, e.t)
            [] e.op = "posted" -> Posted(e.j, e.t)
            [] e.op = "notify" -> Notify(e.s, e.j)
            [] e.op = "run" -> Run(e.j, e.t)
            [] e.op = "done" -> Done(e.j, e.t)
            [] e.op = "open" -> Open(e.s)
            [] e.op = "wait0" -> Wait0(e.s, e.t)
            [] e.op = "wait1" -> Wait1(e.s, e.t)
            [] e.op = "until0" -> Until0(e.s, e.c, e.t)
            [] e.op = "until1" -> Until1(e.s, e.c, e.t)
            [] e.op = "wipe" -> Wipe(e.s)
            [] e.op = "newtd" -> NewTd(e.s, e.td)
            [] e.op = "acq" -> Acq(e.s, e.td)
            [] e.op = "rel" -> Rel(e.s, e.td)
            [] e.op = "deltd" -> DelTd(e.s, e.td)
            [] e.op = "collect" -> Collect(e.s, e.tds)
            [] e.op = "fe0" -> Fe0(e.f, e.n)
            [] e.op = "fepos" -> FePos(e.f, e.p)
            [] e.op = "feposd" -> FePosD(e.f, e.p)
            [] e.op = "fe1" -> Fe1(e.f)
            [] e.op = "destroy" -> Destroy(e.q)
            [] e.op = "destroyed" -> Destroyed(e.q)
            [] e.op = "ison" -> IsOn(e.q, e.r, e.t)
            [] e.op = "end" -> End
            [] e.op = "stop" -> Stop
            [] OTHER -> FALSE
       /\ ev' = e
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
