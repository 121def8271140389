--------------------------- MODULE FileBinTrace ---------------------------
EXTENDS FileBin, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "reset" -> Reset
            [] e.op = "old" -> Old(e.n, e.tok, e.b)
            [] e.op = "create" -> Create(e.slot, e.tr, e.ok)
            [] e.op = "put" -> Put(e.n, e.tok, e.b, e.ok, e.cur)
            [] e.op = "flush" -> Flush(e.ok, e.size)
            [] e.op = "trunc" -> Truncate(e.pos, e.ok, e.size)
            [] e.op = "close" -> Close(e.ok, e.size)
            [] e.op = "image" -> Image(e.c)
            [] e.op = "snap" -> Snap(e.n, e.size)
            [] e.op = "grow" -> Grow(e.n)
            [] e.op = "damage" -> Damage(e.off, e.n, e.v)
            [] e.op = "raw" -> Raw
            [] e.op = "open" -> Open(e.ok)
            [] e.op = "refresh" -> Refresh(e.ok)
            [] e.op = "next" -> Next1(e.r, e.fin)
            [] e.op = "rewind" -> Rewind(e.ok)
            [] e.op = "last" -> Last(e.n, e.ok, e.r)
            [] e.op = "all" -> All(e.r, e.fin)
            [] OTHER -> FALSE
       /\ ev' = e
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
