------------------------------ MODULE ModsTrace ------------------------------
EXTENDS Mods, VPTrace
VARIABLE l
AllIds == 0..7
TraceInit == MInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       CASE e.op = "new" -> MNew(e.m, e.d)
         [] e.op = "dep" -> MDep(e.m, e.d)
         [] e.op = "impl" -> MImpl(e.m, e.k)
         [] e.op = "arg" -> MArg(e.m, e.a, e.r)
         [] e.op = "req" -> MReq(e.m)
         [] e.op = "reqend" -> MReqEnd(e.m)
         [] e.op = "rel" -> MRel(e.m)
         [] e.op = "relend" -> MRelEnd(e.m)
         [] e.op = "ctor" -> MCtor(e.m, e.arg)
         [] e.op = "ctorend" -> MCtorEnd(e.m)
         [] e.op = "dtor" -> MDtor(e.m)
         [] e.op = "dtorend" -> MDtorEnd(e.m)
         [] e.op = "destroy" -> MDestroy
         [] e.op = "destroyend" -> MDestroyEnd
         [] e.op = "st" -> MState(e.on, e.ini, e.shu)
         [] e.op = "run" -> MRun(e.k, e.arg, e.c)
         [] e.op = "fork" -> MFork(e.i, e.c, e.child)
         [] e.op = "coll" -> MColl(e.t, e.r)
         [] e.op = "dump" -> MDump(e.mods, e.deps)
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
View == l
=============================================================================
