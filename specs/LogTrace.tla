------------------------------ MODULE LogTrace ------------------------------
EXTENDS Log, VPTrace
VARIABLE l
AllIds == 0..15
TheDflt == Trace[1].dflt
TraceInit == LInit /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       CASE e.op = "init" -> UNCHANGED lvars
         [] e.op = "new" -> LNew(e.id, e.p, e.n, e.lv, e.si, e.st)
         [] e.op = "wipe" -> LWipe(e.id)
         [] e.op = "set" -> LSet(e.n, e.lv, e.rec, e.si, e.r)
         [] e.op = "level" -> LLevel(e.id, e.r, e.lv, e.ok)
         [] e.op = "find" -> LFind(e.n, e.r)
         [] e.op = "log" -> LLog(e.id, e.lv, e.ml, e.m, e.r, e.h)
         [] e.op = "bstart" -> LBStart(e.u, e.f)
         [] e.op = "bstop" -> LBStop(e.b)
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>
View == l
=============================================================================
