------------------------------- MODULE ThrSyn -------------------------------
(* A completion group: workers finish jobs (decrement, last one broadcasts,   *)
(* release), one of them may add jobs while it runs; the owner waits on the   *)
(* eventcount with a futex and then wipes.  One atomic access per step.       *)
(* Checked: no lost wake-up (the owner ends), the wait only returns when all  *)
(* is done, nobody touches the group after it was wiped.                      *)
EXTENDS Integers, FiniteSets
CONSTANTS Workers, Extra
VARIABLES pending, refcnt, key, waiters, sleeping, wpc, opc, okey, wres, extra, wiped, bad
vars == <<pending, refcnt, key, waiters, sleeping, wpc, opc, okey, wres, extra, wiped, bad>>
Init ==
    /\ pending = Cardinality(Workers) /\ refcnt = 1 + Cardinality(Workers)
    /\ key = 0 /\ waiters = 0 /\ sleeping = FALSE
    /\ wpc = [w \in Workers |-> "run"] /\ opc = "retain" /\ okey = 0
    /\ wres = [w \in Workers |-> 0] /\ extra = Extra /\ wiped = FALSE /\ bad = FALSE
Touch == bad' = (bad \/ wiped)
WGo(w, p) == wpc' = [wpc EXCEPT ![w] = p]
\* a running job schedules another one on the same group (and this worker will run it too)
WAdd1(w) == /\ wpc[w] = "run" /\ extra > 0 /\ extra' = extra - 1 /\ refcnt' = refcnt + 1 /\ WGo(w, "add2") /\ Touch
            /\ UNCHANGED <<pending, key, waiters, sleeping, opc, okey, wres, wiped>>
WAdd2(w) == /\ wpc[w] = "add2" /\ pending' = pending + 1 /\ WGo(w, "two") /\ Touch
            /\ UNCHANGED <<refcnt, key, waiters, sleeping, opc, okey, wres, extra, wiped>>
Dec(w, from, to) ==
    /\ wpc[w] = from /\ pending' = pending - 1 /\ wres' = [wres EXCEPT ![w] = pending]
    /\ WGo(w, to) /\ Touch /\ UNCHANGED <<refcnt, key, waiters, sleeping, opc, okey, extra, wiped>>
WDec(w) == Dec(w, "run", "sig") \/ Dec(w, "two", "sig2")
WSig(w, from, to, rel) ==
    /\ wpc[w] = from
    /\ IF wres[w] = 1 THEN key' = key + 1 /\ WGo(w, to) /\ Touch ELSE UNCHANGED <<key, bad>> /\ WGo(w, rel)
    /\ UNCHANGED <<pending, refcnt, waiters, sleeping, opc, okey, wres, extra, wiped>>
WWake(w, from, to) ==
    /\ wpc[w] = from /\ sleeping' = (IF waiters > 0 THEN FALSE ELSE sleeping) /\ WGo(w, to) /\ Touch
    /\ UNCHANGED <<pending, refcnt, key, waiters, opc, okey, wres, extra, wiped>>
WRel(w, from, to) ==
    /\ wpc[w] = from /\ refcnt' = refcnt - 1 /\ WGo(w, to) /\ Touch
    /\ UNCHANGED <<pending, key, waiters, sleeping, opc, okey, wres, extra, wiped>>
W(w) == WAdd1(w) \/ WAdd2(w) \/ WDec(w)
        \/ WSig(w, "sig", "wake", "rel") \/ WWake(w, "wake", "rel") \/ WRel(w, "rel", "done")
        \/ WSig(w, "sig2", "wake2", "rel2") \/ WWake(w, "wake2", "rel2") \/ WRel(w, "rel2", "run")
O(p, q) == opc = p /\ opc' = q
Same(x) == UNCHANGED x
ORetain == O("retain", "get") /\ refcnt' = refcnt + 1 /\ Same(<<pending, key, waiters, sleeping, wpc, okey, wres, extra, wiped, bad>>)
OGet == O("get", "chk") /\ okey' = key /\ Same(<<pending, refcnt, key, waiters, sleeping, wpc, wres, extra, wiped, bad>>)
OChk == /\ opc = "chk" /\ opc' = (IF pending = 0 THEN "rel" ELSE "cmp")
        /\ Same(<<pending, refcnt, key, waiters, sleeping, wpc, okey, wres, extra, wiped, bad>>)
OCmp == /\ opc = "cmp" /\ opc' = (IF okey # key THEN "get" ELSE "inc")
        /\ Same(<<pending, refcnt, key, waiters, sleeping, wpc, okey, wres, extra, wiped, bad>>)
OInc == O("inc", "futex") /\ waiters' = waiters + 1 /\ Same(<<pending, refcnt, key, sleeping, wpc, okey, wres, extra, wiped, bad>>)
OFutex == /\ opc = "futex" /\ opc' = "sleep" /\ sleeping' = (okey = key)
          /\ Same(<<pending, refcnt, key, waiters, wpc, okey, wres, extra, wiped, bad>>)
OWoken == O("sleep", "get") /\ ~sleeping /\ waiters' = waiters - 1
          /\ Same(<<pending, refcnt, key, sleeping, wpc, okey, wres, extra, wiped, bad>>)
ORel == O("rel", "wipe") /\ refcnt' = refcnt - 1 /\ Same(<<pending, key, waiters, sleeping, wpc, okey, wres, extra, wiped, bad>>)
OWipe == O("wipe", "spin") /\ refcnt' = refcnt - 1 /\ Same(<<pending, key, waiters, sleeping, wpc, okey, wres, extra, wiped, bad>>)
OSpin == O("spin", "end") /\ refcnt = 0 /\ wiped' = TRUE /\ Same(<<pending, refcnt, key, waiters, sleeping, wpc, okey, wres, extra, bad>>)
Own == ORetain \/ OGet \/ OChk \/ OCmp \/ OInc \/ OFutex \/ OWoken \/ ORel \/ OWipe \/ OSpin
Fin == opc = "end" /\ (\A w \in Workers : wpc[w] = "done") /\ UNCHANGED vars
Next == Own \/ (\E w \in Workers : W(w)) \/ Fin
Spec == Init /\ [][Next]_vars /\ WF_vars(Own) /\ \A w \in Workers : WF_vars(W(w))
NoTouchAfterWipe == ~bad
WaitMeansDone == opc \in {"rel", "wipe", "spin", "end"} => pending = 0
NoNegative == pending >= 0 /\ refcnt >= 0 /\ waiters >= 0
OwnerEnds == <>(opc = "end")
=============================================================================
