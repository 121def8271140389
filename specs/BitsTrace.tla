----------------------------- MODULE BitsTrace -----------------------------
EXTENDS Bits, VPTrace, TLC
VARIABLE l
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "initsb" -> New(e.v, e.len)
            [] e.op = "add" -> Add(e.v, e.len)
            [] e.op = "fill" -> Fill(e.b, e.n, e.len)
            [] e.op = "align" -> Align(e.len)
            [] e.op = "clear" -> Clear(e.len)
            [] e.op = "shl" -> ShiftLeft(e.n, e.len)
            [] e.op = "dump" -> Dump(e.c, e.zero)
            [] e.op = "tosb" -> ToSb(e.v, e.len)
            [] e.op = "addbs" -> AddStream(e.id, e.len)
            [] e.op = "open" -> Open(e.id, e.st, e.back)
            [] e.op = "len" -> Length(e.id, e.n, e.len, e.has, e.hasb, e.done, e.al)
            [] e.op = "all" -> All(e.id, e.v)
            [] e.op = "skip" -> Skip(e.id, e.n, e.r)
            [] e.op = "shrink" -> Shrink(e.id, e.n, e.r)
            [] e.op = "clip" -> Clip(e.id, e.n, e.r)
            [] e.op = "salign" -> SAlign(e.id, e.r)
            [] e.op = "peek" -> Peek(e.id, e.r)
            [] e.op = "peekl" -> PeekLast(e.id, e.r)
            [] e.op = "get" -> Get(e.id, e.r)
            [] e.op = "getl" -> GetLast(e.id, e.r)
            [] e.op = "gets" -> Gets(e.id, e.n, e.r, e.v)
            [] e.op = "getsl" -> GetsLast(e.id, e.n, e.r, e.v)
            [] e.op = "getb" -> GetBytes(e.id, e.n, e.ok, e.v)
            [] e.op = "sub" -> SubStream(e.id, e.n, e.out, e.ok)
            [] e.op = "subbit" -> SubBit(e.id, e.b, e.out, e.skip, e.ok)
            [] e.op = "equals" -> Equals(e.a, e.b, e.r)
            [] e.op = "upto" -> Upto(e.id, e.b, e.max, e.r)
            [] e.op = "after" -> After(e.id, e.b, e.max, e.r)
            [] e.op = "downto" -> Downto(e.id, e.b, e.max, e.r)
            [] e.op = "before" -> Before(e.id, e.b, e.max, e.r)
            [] OTHER -> FALSE
       /\ ev' = e
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
