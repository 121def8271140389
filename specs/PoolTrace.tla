----------------------------- MODULE PoolTrace -----------------------------
EXTENDS Pool, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "pool" -> NewPool(e.p, e.k)
            [] e.op = "alloc" -> Alloc(e.p, e.id, e.n, e.al, e.zero, e.c, e.f, e.h, e.l, e.off, e.bn)
            [] e.op = "realloc" -> Realloc(e.id, e.n, e.zero, e.c, e.f, e.h, e.l, e.off, e.bn)
            [] e.op = "write" -> Write(e.id, e.f)
            [] e.op = "read" -> Read(e.id, e.c)
            [] e.op = "free" -> Free(e.id, e.c)
            [] e.op = "push" -> Push(e.p, e.f)
            [] e.op = "pop" -> Pop(e.p, e.same)
            [] e.op = "trim" -> Trim(e.p)
            [] e.op = "attop" -> AtTop(e.p, e.r)
            [] e.op = "newframe" -> NewFrame(e.p, e.f)
            [] e.op = "seal" -> Seal(e.p, e.same)
            [] e.op = "release" -> Release(e.f)
            [] e.op = "ckpt" -> Checkpoint(e.p, e.k)
            [] e.op = "rewind" -> Rewind(e.k)
            [] e.op = "delete" -> Delete(e.p)
            [] e.op = "stats" -> Stats(e.p, e.used, e.alloc)
            [] e.op = "footprint" -> Footprint(e.p, e.n)
            [] e.op = "leaks" -> Leaks(e.n)
            [] OTHER -> FALSE
       /\ ev' = e
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
