------------------------------ MODULE WahTrace ------------------------------
EXTENDS Wah, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "reset" -> Reset
            [] e.op = "clear" -> Clear(e.i, e.len, e.act)
            [] e.op = "add0" -> Add0(e.i, e.n, e.len, e.act)
            [] e.op = "add1" -> Add1(e.i, e.n, e.len, e.act)
            [] e.op = "at" -> SetAt(e.i, e.p, e.len, e.act)
            [] e.op = "add" -> AddBits(e.i, e.n, e.v, e.len, e.act)
            [] e.op = "pad" -> Pad(e.i, e.len, e.act)
            [] e.op = "and" -> DoAnd(e.i, e.j, e.len, e.act)
            [] e.op = "andnot" -> DoAndNot(e.i, e.j, e.len, e.act)
            [] e.op = "notand" -> DoNotAnd(e.i, e.j, e.len, e.act)
            [] e.op = "or" -> DoOr(e.i, e.j, e.len, e.act)
            [] e.op = "not" -> DoNot(e.i, e.len, e.act)
            [] e.op = "multior" -> MultiOr(e.i, e.s, e.len, e.act)
            [] e.op = "copy" -> Copy(e.i, e.j, e.len, e.act)
            [] e.op = "dump" -> Dump(e.i, e.c, e.fmt, e.len, e.act)
            [] e.op = "store" -> Store(e.i, e.ok, e)
            [] e.op = "load" -> Load(e.i, e)
            [] e.op = "bucket" -> Rebucket(e.lens)
            [] e.op = "get" -> Get(e.i, e.p, e.r)
            [] e.op = "enum" -> Enum(e.i, e.b, e.v, e.asc)
            [] e.op = "walk" -> Walk(e.i, e.rev, e.steps, e.keys)
            [] OTHER -> FALSE
       /\ ev' = e
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
