------------------------------ MODULE ELTrace ------------------------------
(* The phases of the loop are not logged: they advance between the events.  *)
EXTENDS EL, VPTrace
VARIABLE l
TraceInit == Init /\ l = 1
Event(e) ==
    CASE e.op = "timer" -> TimerReg(e.id, e.next, e.rep, e.low, e.nm)
      [] e.op = "restart" -> TimerRestart(e.id, e.d)
      [] e.op = "fd" -> FdReg(e.id, e.want, FALSE)
      [] e.op = "wake" -> FdReg(e.id, PIN, TRUE)
      [] e.op = "data" -> FdData(e.id, e.n)
      [] e.op = "mask" -> FdMask(e.id, e.want, e.old)
      [] e.op = "prio" -> FdPrio(e.id, e.p)
      [] e.op = "mark" -> FdMark(e.id)
      [] e.op = "watch" -> FdWatch(e.id, e.mask, e.d, e.res)
      [] e.op = "before" -> BeforeReg(e.id)
      [] e.op = "blocker" -> BlockerReg(e.id)
      [] e.op = "idle" -> IdleReg(e.id)
      [] e.op = "unpark" -> IdleUnpark(e.id)
      [] e.op = "signal" -> SigReg(e.id, e.s)
      [] e.op = "raise" -> Raise(e.s)
      [] e.op = "child" -> ChildReg(e.id, e.dead, e.st)
      [] e.op = "dies" -> ChildDies(e.id, e.st, e.sig)
      [] e.op = "proxy" -> ProxyReg(e.id)
      [] e.op = "pset" -> ProxySet(e.id, e.m, e.old)
      [] e.op = "pclr" -> ProxyClr(e.id, e.m, e.old)
      [] e.op = "pmask" -> ProxyMask(e.id, e.m, e.old)
      [] e.op = "unreg" -> Unreg(e.id)
      [] e.op = "hold" -> Hold(e.id, e.h)
      [] e.op = "unloop" -> Unloop
      [] e.op = "work" -> Work(e.d)
      [] e.op = "pending" -> Pending(e.r)
      [] e.op = "loop" -> Begin(e.t)
      [] e.op = "run" -> BeginRun
      [] e.op = "end" -> End
      [] e.op = "poll" -> Poll(e.t, e.d)
      [] e.op = "ftimer" -> FireTimer(e.id)
      [] e.op = "fact" -> FireAct(e.id)
      [] e.op = "ffd" -> FireFd(e.id, e.e)
      [] e.op = "fbefore" -> FireBefore(e.id)
      [] e.op = "fidle" -> FireIdle(e.id)
      [] e.op = "fsig" -> FireSig(e.id, e.s)
      [] e.op = "fproxy" -> FireProxy(e.id, e.e)
      [] e.op = "fchild" -> FireChild(e.id, e.st)
      [] e.op = "ret" -> Ret(e.id)
      [] e.op = "reset" -> ResetAll
      [] OTHER -> FALSE
TraceNext ==
    \/ /\ l <= Len(Trace)
       /\ Event(Trace[l])
       /\ l' = l + 1
       /\ ev' = Trace[l]
    \/ /\ Advance
       /\ UNCHANGED <<l, ev>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
Progress == VPProgress(l)
=============================================================================
