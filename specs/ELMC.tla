------------------------------- MODULE ELMC -------------------------------
(* Exhaustive exploration of the loop with a few events of every kind and a *)
(* bounded number of commands of the user, in and out of the callbacks.     *)
EXTENDS EL
CONSTANTS MAXCMD, MAXITER
VARIABLES ncmd, niter
mcvars == <<vars, ncmd, niter>>
MCInit == Init /\ ncmd = 0 /\ niter = 0

Cmd ==
    \/ \E i \in {1, 2} : \/ \E n \in {0, 2}, r \in {0, 3} : n + r > 0 /\ TimerReg(i, n, r, FALSE, i = 2)
                         \/ TimerRestart(i, 2)
    \/ FdReg(3, PIN, FALSE) \/ FdData(3, 1) \/ FdData(3, 0) \/ FdMark(3)
    \/ \E r \in {0, 2} : FdWatch(3, PIN, 2, r)
    \/ BeforeReg(4) \/ IdleReg(5)
    \/ ProxyReg(6)
    \/ \E o \in {0, 1} : ProxySet(6, PIN, o) \/ ProxyMask(6, PIN, o) \/ ProxyClr(6, PIN, o)
    \/ SigReg(7, 10) \/ (7 \in DOMAIN sg /\ Raise(10))
    \/ \E i \in {1, 3, 4, 5, 6} : Unreg(i)
    \/ Work(1)
    \/ Unloop

Fire ==
    \E i \in 1..7 :
       \/ FireTimer(i) \/ FireAct(i) \/ FireFd(i, PIN) \/ FireBefore(i) \/ FireIdle(i)
       \/ FireSig(i, 10) \/ FireProxy(i, PIN) \/ Ret(i)

Sys == \/ Fire \/ Advance \/ End
       \/ (ph = "W" /\ \E t \in {Bound} : Poll(t, IF ReadyFds # {} THEN 0 ELSE t))

MCNext ==
    /\ ev' = ev
    /\ \/ Cmd /\ ncmd < MAXCMD /\ ncmd' = ncmd + 1 /\ UNCHANGED niter
       \/ (Begin(4) \/ BeginRun) /\ niter < MAXITER /\ niter' = niter + 1 /\ UNCHANGED ncmd
       \/ Sys /\ clock < 12 /\ UNCHANGED <<ncmd, niter>>
MCSpec == MCInit /\ [][MCNext]_mcvars

(* a timer past its deadline never survives a pass *)
NotLate == ph \in {"B", "F", "P", "S"} /\ cur = -1 =>
           \A t \in DOMAIN tm : Key(t) < until => tm[t].exp > start \/ ph # "P"
(* only what is registered runs *)
CurRegistered == cur # -1 => cur \in DOMAIN typ \/ gone
(* the loop sleeps only when nothing is to be done *)
NoLazySleep == ph = "W" /\ Bound > 0 => pend = {} /\ \A t \in DOMAIN tm : Key(t) > start
=============================================================================
