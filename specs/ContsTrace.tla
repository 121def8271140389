----------------------------- MODULE ContsTrace -----------------------------
EXTENDS Conts, VPTrace
VARIABLE l
AllNodes == 0..23
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ \E e \in {Trace[l]} :
       /\ CASE e.op = "dreset" -> DReset /\ DSees(dl', e)
            [] e.op = "dadd" -> DAdd(e.l, e.e) /\ DSees(dl', e)
            [] e.op = "dtail" -> DTail(e.l, e.e) /\ DSees(dl', e)
            [] e.op = "dafter" -> DAfter(e.e, e.n) /\ DSees(dl', e)
            [] e.op = "dbefore" -> DBefore(e.e, e.n) /\ DSees(dl', e)
            [] e.op = "drem" -> DRemove(e.e) /\ DSees(dl', e)
            [] e.op = "dpop" -> DPop(e.l, e.r) /\ DSees(dl', e)
            [] e.op = "dmove" -> DMove(e.l, e.e) /\ DSees(dl', e)
            [] e.op = "dmovet" -> DMoveTail(e.l, e.e) /\ DSees(dl', e)
            [] e.op = "dsplice" -> DSplice(e.d, e.s) /\ DSees(dl', e)
            [] e.op = "dsplicet" -> DSpliceTail(e.d, e.s) /\ DSees(dl', e)
            [] e.op = "dcut" -> DCut(e.s, e.e, e.d) /\ DSees(dl', e)
            [] e.op = "drepair" -> DStay /\ DSees(dl', e)
            [] e.op = "dfilter" -> DFilter(e.l, e.how, e.mod, e.seen) /\ DSees(dl', e)
            [] e.op = "dwalk" -> DWalk(e.l, e.e, e.how, e.first, e.last, e.seen) /\ DSees(dl', e)
            [] e.op = "hreset" -> HReset /\ HSees(hl', e)
            [] e.op = "hadd" -> HAdd(e.l, e.e) /\ HSees(hl', e)
            [] e.op = "htail" -> HTail(e.l, e.e) /\ HSees(hl', e)
            [] e.op = "hafter" -> HAfter(e.l, e.p, e.e) /\ HSees(hl', e)
            [] e.op = "hpop" -> HPop(e.l, e.r) /\ HSees(hl', e)
            [] e.op = "hsplice" -> HSplice(e.d, e.s) /\ HSees(hl', e)
            [] e.op = "hsplicet" -> HSpliceTail(e.d, e.s) /\ HSees(hl', e)
            [] e.op = "hmove" -> HMove(e.d, e.s) /\ HSees(hl', e)
            [] e.op = "hwalk" -> HWalk(e.l, e.e, e.seen) /\ HSees(hl', e)
            [] e.op = "hclear" -> HClear(e.l, e.seen) /\ HSees(hl', e)
            [] e.op = "rreset" -> RReset /\ RSees(rg', e)
            [] e.op = "rpush" -> RPush(e.x) /\ RSees(rg', e)
            [] e.op = "runshift" -> RUnshift(e.x) /\ RSees(rg', e)
            [] e.op = "rshift" -> RShift(e.ok, e.x) /\ RSees(rg', e)
            [] e.op = "rpop" -> RPop(e.ok, e.x) /\ RSees(rg', e)
            [] e.op = "rskip" -> RSkip(e.n, e.ok) /\ RSees(rg', e)
            [] e.op = "rfilter" -> RFilter(e.mod) /\ RSees(rg', e)
            [] e.op = "preset" -> PReset(e.max) /\ PSees(hp', e)
            [] e.op = "pins" -> PIns(e.e, e.k) /\ PSees(hp', e) /\ e.r = e.pos[e.e + 1]
            [] e.op = "pfix" -> PFix(e.e, e.k) /\ PSees(hp', e) /\ e.r = e.pos[e.e + 1]
            [] e.op = "prem" -> PRem(e.e, e.r) /\ PSees(hp', e)
            [] e.op = "ptake" -> PTake(e.r) /\ PSees(hp', e)
            [] e.op = "psort" -> PSort(e.max, e.in, e.out)
            [] e.op = "treset" -> TReset
            [] e.op = "tins" -> TIns(e.k, e.id, e.r)
            [] e.op = "trem" -> TRem(e.k, e.r)
            [] e.op = "tfind" -> TFind(e.k, e.r, e.up, e.lo)
            [] e.op = "tdump" -> UNCHANGED tr /\ KT /\ TSees(tr, e)
            [] e.op = "tfilter" -> TFilter(e.mod) /\ TSees(tr', e)
            [] e.op = "twipe" -> TWipe(e.seen)
            [] OTHER -> FALSE
       /\ ev' = e.op
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
