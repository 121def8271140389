----------------------------- MODULE QHashTrace -----------------------------
EXTENDS QHash, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "reset" -> Reset
            [] e.op = "put" -> Put(e.k, e.kv, e.v, e.over)
            [] e.op = "putr" -> PutRange(e.lo, e.hi, e.st, e.kv, e.v0, e.over)
            [] e.op = "find" -> Find(e.k)
            [] e.op = "findr" -> FindRange(e.lo, e.hi, e.st)
            [] e.op = "del" -> Del(e.k)
            [] e.op = "delr" -> DelRange(e.lo, e.hi, e.st)
            [] e.op = "iter" -> Iter(e.ks, e.mod, e.rem)
            [] e.op = "clear" -> Clear
            [] e.op = "minsize" -> MinSize
            [] e.op = "seal" -> Seal
            [] e.op = "unseal" -> Unseal
       /\ ev' = e
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
