------------------------------ MODULE HatTrace ------------------------------
EXTENDS Hat, VPTrace
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "reset" -> Reset
            [] e.op = "new" -> New(e.o, e.kind, e.nul)
            [] e.op = "destroy" -> Destroy(e.o)
            [] e.op = "clear" -> Clear(e.o)
            [] e.op = "fill" -> Fill(e.o, e.k, e.step, e.n, e.t)
            [] e.op = "unfill" -> Unfill(e.o, e.k, e.step, e.n)
            [] e.op = "get" -> Get(e.o, e.k, e.v, e.null)
            [] e.op = "set" -> Set(e.o, e.k, e.v, e.r)
            [] e.op = "set0" -> Set0(e.o, e.k, e.v, e.r)
            [] e.op = "rem" -> Rem(e.o, e.k, e.v, e.r)
            [] e.op = "en" -> Enum(e.e, e.o, e.from, e)
            [] e.op = "next" -> Next_(e.e, e)
            [] e.op = "goto" -> Goto(e.e, e.to, e)
            [] e.op = "val" -> ValueAt(e.e, e.v)
            [] e.op = "dump" -> Dump(e.o, e.l)
            [] e.op = "sweep" -> Sweep(e.o, e.a, e.b, e.l)
            [] e.op = "check" -> Check(e.o, e.r)
            [] e.op = "stats" -> Stats(e.o, e)
            [] e.op = "alloc" -> Alloc(e.i, e.sz, e.t, e.fits, e.h)
            [] e.op = "realloc" -> Realloc(e.i, e.sz, e.t, e.kept, e.fits, e.h)
            [] e.op = "mread" -> Read(e.i, e.t, e.sz, e.ok)
            [] e.op = "mwrite" -> Write(e.i, e.t, e.ok)
            [] e.op = "mfree" -> Free(e.i, e.ok)
            [] e.op = "leaks" -> Leaks(e.r)
            [] e.op = "gc" -> Gc(e.r)
            [] e.op = "snap" -> Snap(e.n)
            [] e.op = "snapped" -> Snapped(e.n)
            [] e.op = "reopen" -> Reopen(e.crash, e.ok, e.n)
            [] OTHER -> FALSE
       /\ ev' = e
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
