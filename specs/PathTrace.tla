---------------------------- MODULE PathTrace ----------------------------
EXTENDS Path, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "set" -> Set(e)
            [] e.op = "cwd" -> Cwd(e)
            [] e.op = "simplify" -> DoSimplify(e)
            [] e.op = "join" -> DoJoin(e)
            [] e.op = "dirname" -> DoDirName(e)
            [] e.op = "basename" -> DoBaseName(e)
            [] e.op = "dirpart" -> DoDirPart(e)
            [] e.op = "parts" -> DoParts(e)
            [] e.op = "extend" -> DoExtend(e)
            [] e.op = "relative" -> DoRelative(e)
            [] OTHER -> FALSE
       /\ ev' = e
View == l
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
