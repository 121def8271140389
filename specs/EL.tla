-------------------------------- MODULE EL --------------------------------
(* The event loop: timers, descriptors, before and idle hooks, signals,     *)
(* child processes, proxies, wake-ups, references.  Single threaded: what   *)
(* happens inside an iteration is what the callbacks do.                    *)
(*                                                                          *)
(* One iteration goes through the phases                                    *)
(*   T1 (due timers) B (before hooks) I (idle hooks) M (descriptors marked) *)
(*   W (sleep)  T2 (due timers)  F (descriptors)  P (proxies)  S (signals)  *)
EXTENDS Integers, FiniteSets, Sequences, TLC

VARIABLES
    clock,    \* milliseconds
    ph,       \* "out" or a phase
    run,      \* inside el_loop: iterate until nothing holds the loop
    tmo,      \* timeout asked for this iteration
    start,    \* clock at the beginning of the iteration
    until,    \* clock the current timer pass works with
    cur,      \* id of the event whose callback runs, -1
    upd,      \* the timer being run was restarted by its callback
    gone,     \* the timer being run was unregistered by its callback
    typ,      \* id -> type of the registered events
    ref,      \* ids that hold the loop
    tm,       \* id -> timer
    fd,       \* id -> descriptor or wake-up
    px,       \* id -> proxy
    sg,       \* id -> signal number
    ch,       \* id -> child
    todo,     \* ids that must still run in this phase
    may,      \* ids that may run in this phase
    evs,      \* id -> events to deliver (descriptors)
    coll,     \* events collected in advance by a query: [on, e, must]
    marked,   \* descriptors marked as fired
    idle, parked, lastidle,
    hasrun,   \* the previous iteration had something to do
    pend,     \* pending signals
    unloop,
    ev

vars == <<clock, ph, run, tmo, start, until, cur, upd, gone, typ, ref, tm, fd, px, sg, ch, todo, may,
          evs, coll, marked, idle, parked, lastidle, hasrun, pend, unloop, ev>>

SIGCHLD == 17
PIN == 1
POUT == 4
NOACT == -1
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Empty == [x \in {} |-> 0]
Act(f) == 1000 + f
NoColl == [on |-> FALSE, e |-> [x \in {} |-> 0], must |-> {}]
(* bitwise and of {0,1,4,5} masks *)
And(a, b) == (IF a % 2 = 1 /\ b % 2 = 1 THEN 1 ELSE 0) + (IF a >= 4 /\ b >= 4 THEN 4 ELSE 0)
Or(a, b) == (IF a % 2 = 1 \/ b % 2 = 1 THEN 1 ELSE 0) + (IF a >= 4 \/ b >= 4 THEN 4 ELSE 0)

Tol(low, next) == IF low /\ next >= 500 THEN Min(next \div 10, 59000) ELSE 0
Key(t) == tm[t].exp + tm[t].tol
Keys == {Key(t) : t \in DOMAIN tm}
MinKey == CHOOSE k \in Keys : \A j \in Keys : k <= j
ReadyEv(f) == And(IF fd[f].wake THEN (IF fd[f].n > 0 THEN PIN ELSE 0)
                  ELSE (IF fd[f].n > 0 THEN PIN + POUT ELSE POUT), fd[f].want)
PReady(p) == And(px[p].av, px[p].want) # 0
ReadyProxies == {p \in DOMAIN px : PReady(p)}
Of(t) == {i \in DOMAIN typ : typ[i] = t}

Init ==
    /\ clock = 0 /\ ph = "out" /\ run = FALSE /\ tmo = 0 /\ start = 0 /\ until = 0
    /\ cur = -1 /\ upd = FALSE /\ gone = FALSE
    /\ typ = Empty /\ ref = {} /\ tm = Empty /\ fd = Empty /\ px = Empty /\ sg = Empty /\ ch = Empty
    /\ todo = {} /\ may = {} /\ evs = Empty /\ coll = NoColl /\ marked = {} /\ idle = {} /\ parked = {}
    /\ lastidle = -1 /\ hasrun = FALSE /\ pend = {} /\ unloop = FALSE /\ ev = [op |-> "init"]

(* where the user's code can act: outside of the loop or in a callback *)
UserCode == ph = "out" \/ cur # -1

UnchLoop2 == UNCHANGED <<clock, ph, run, tmo, start, until, cur, lastidle, hasrun>>
UnchLoop == UNCHANGED <<coll, clock, ph, run, tmo, start, until, cur, lastidle, hasrun>>

---------------------------------------------------------------------------
(* Commands of the user.                                                   *)

Reg(id, type, hold) ==
    /\ UserCode
    /\ id \notin DOMAIN typ
    /\ typ' = Put(typ, id, type)
    /\ ref' = IF hold THEN ref \cup {id} ELSE ref
    /\ UnchLoop

TimerReg(id, next, rep, low, nm) ==
    /\ Reg(id, "timer", TRUE)
    /\ tm' = Put(tm, id, [exp |-> clock + next, tol |-> Tol(low, next),
                          rep |-> IF rep > 0 THEN rep ELSE -next, low |-> low, nm |-> nm])
    /\ UNCHANGED <<upd, gone, fd, px, sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

TimerRestart(id, d) ==
    /\ UserCode
    /\ id \in DOMAIN tm /\ tm[id].rep <= 0
    /\ tm' = [tm EXCEPT ![id] = [exp |-> clock + (IF d <= 0 THEN -tm[id].rep ELSE d),
                                 tol |-> IF d <= 0 THEN tm[id].tol ELSE Tol(tm[id].low, d),
                                 rep |-> IF d <= 0 THEN tm[id].rep ELSE -d,
                                 low |-> tm[id].low, nm |-> tm[id].nm]]
    /\ upd' = (upd \/ cur = id)
    /\ UnchLoop
    /\ UNCHANGED <<gone, typ, ref, fd, px, sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

FdReg(id, want, wake) ==
    /\ Reg(id, "fd", TRUE)
    /\ fd' = Put(fd, id, [want |-> want, n |-> 0, prio |-> 1, wake |-> wake, act |-> 0, delay |-> 0])
    /\ UNCHANGED <<upd, gone, tm, px, sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

(* data arrives for (+1), or is read from (-1), a descriptor; a wake-up is fired *)
FdData(id, n) ==
    /\ UserCode
    /\ id \in DOMAIN fd
    /\ fd' = [fd EXCEPT ![id].n = n]
    /\ UnchLoop
    /\ UNCHANGED <<upd, gone, typ, ref, tm, px, sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

(* an event already collected for this iteration may still be delivered *)
FdMask(id, want, old) ==
    /\ UserCode
    /\ id \in DOMAIN fd /\ old = fd[id].want
    /\ fd' = [fd EXCEPT ![id].want = want]
    /\ todo' = IF ph \in {"T2", "F"} THEN todo \ {id} ELSE todo
    /\ coll' = [coll EXCEPT !.must = @ \ {id}]
    /\ UnchLoop2
    /\ UNCHANGED <<upd, gone, typ, ref, tm, px, sg, ch, may, evs, marked, idle, parked, pend, unloop>>

FdPrio(id, p) ==
    /\ ph = "out"
    /\ id \in DOMAIN fd
    /\ fd' = [fd EXCEPT ![id].prio = p]
    /\ UnchLoop
    /\ UNCHANGED <<upd, gone, typ, ref, tm, px, sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

FdMark(id) ==
    /\ UserCode
    /\ id \in DOMAIN fd
    /\ marked' = marked \cup {id}
    /\ UnchLoop
    /\ UNCHANGED <<upd, gone, typ, ref, tm, fd, px, sg, ch, todo, may, evs, idle, parked, pend, unloop>>

Watched(id) == Act(id) \in DOMAIN tm
FdWatch(id, mask, delay, res) ==
    /\ UserCode
    /\ id \in DOMAIN fd
    /\ fd' = [fd EXCEPT ![id].act = mask]
    /\ IF ~Watched(id)
       THEN /\ res = 0
            /\ tm' = IF delay > 0
                     THEN Put(tm, Act(id), [exp |-> clock + delay, tol |-> 0, rep |-> -delay,
                                            low |-> FALSE, nm |-> FALSE])
                     ELSE tm
       ELSE /\ res = -tm[Act(id)].rep
            /\ tm' = IF delay = 0 THEN Drop(tm, {Act(id)})
                     ELSE [tm EXCEPT ![Act(id)] = [exp |-> clock + (IF delay < 0 THEN -@.rep ELSE delay),
                                                   tol |-> 0, rep |-> IF delay < 0 THEN @.rep ELSE -delay,
                                                   low |-> FALSE, nm |-> FALSE]]
    /\ UnchLoop
    /\ UNCHANGED <<upd, gone, typ, ref, px, sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

BeforeReg(id) ==
    /\ Reg(id, "before", TRUE)
    /\ UNCHANGED <<upd, gone, tm, fd, px, sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

BlockerReg(id) ==
    /\ Reg(id, "blocker", TRUE)
    /\ UNCHANGED <<upd, gone, tm, fd, px, sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

IdleReg(id) ==
    /\ Reg(id, "idle", FALSE)
    /\ idle' = idle \cup {id}
    /\ UNCHANGED <<upd, gone, tm, fd, px, sg, ch, todo, may, evs, marked, parked, pend, unloop>>

IdleUnpark(id) ==
    /\ UserCode
    /\ id \in Of("idle")
    /\ idle' = idle \cup {id} /\ parked' = parked \ {id}
    /\ UnchLoop
    /\ UNCHANGED <<upd, gone, typ, ref, tm, fd, px, sg, ch, todo, may, evs, marked, pend, unloop>>

SigReg(id, s) ==
    /\ Reg(id, "signal", FALSE)
    /\ sg' = Put(sg, id, s)
    /\ UNCHANGED <<upd, gone, tm, fd, px, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

(* a registration was made for that signal at least once *)
Raise(s) ==
    /\ UserCode
    /\ pend' = pend \cup {s}
    /\ UnchLoop
    /\ UNCHANGED <<upd, gone, typ, ref, tm, fd, px, sg, ch, todo, may, evs, marked, idle, parked, unloop>>

(* dead: the child had ended before: its callback runs with the before hooks *)
ChildReg(id, dead, st) ==
    /\ Reg(id, "child", TRUE)
    /\ ch' = Put(ch, id, [dead |-> dead, st |-> st, early |-> dead])
    /\ UNCHANGED <<upd, gone, tm, fd, px, sg, todo, may, evs, marked, idle, parked, pend, unloop>>

ChildDies(id, st, sig) ==
    /\ UserCode
    /\ id \in DOMAIN ch => ~ch[id].dead
    /\ ch' = IF id \in DOMAIN ch THEN [ch EXCEPT ![id].dead = TRUE, ![id].st = st] ELSE ch
    /\ pend' = IF sig THEN pend \cup {SIGCHLD} ELSE pend
    /\ may' = IF id \in DOMAIN ch /\ ph = "S" /\ 0 \in may THEN may \cup {id} ELSE may
    /\ UnchLoop
    /\ UNCHANGED <<upd, gone, typ, ref, tm, fd, px, sg, todo, evs, marked, idle, parked, unloop>>

ProxyReg(id) ==
    /\ Reg(id, "proxy", TRUE)
    /\ px' = Put(px, id, [av |-> 0, want |-> 0])
    /\ UNCHANGED <<upd, gone, tm, fd, sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

ProxyCmd(id) ==
    /\ UserCode
    /\ id \in DOMAIN px
    /\ todo' = IF ph = "P" THEN todo \ {id} ELSE todo
    /\ UnchLoop
    /\ UNCHANGED <<upd, gone, typ, ref, tm, fd, sg, ch, may, evs, marked, idle, parked, pend, unloop>>
ProxySet(id, m, old) ==
    ProxyCmd(id) /\ old = px[id].av /\ px' = [px EXCEPT ![id].av = Or(@, m)]
ProxyClr(id, m, old) ==
    ProxyCmd(id) /\ old = px[id].av /\ px' = [px EXCEPT ![id].av = And(@, 5 - m)]
ProxyMask(id, m, old) ==
    ProxyCmd(id) /\ old = px[id].want /\ px' = [px EXCEPT ![id].want = m]

Unreg(id) ==
    /\ UserCode
    /\ id \in DOMAIN typ
    /\ typ' = Drop(typ, {id}) /\ ref' = ref \ {id}
    /\ tm' = Drop(tm, {id, Act(id)})
    /\ fd' = Drop(fd, {id}) /\ px' = Drop(px, {id}) /\ sg' = Drop(sg, {id}) /\ ch' = Drop(ch, {id})
    /\ todo' = todo \ {id} /\ may' = may \ {id}
    /\ evs' = Drop(evs, {id})
    /\ marked' = marked \ {id} /\ idle' = idle \ {id} /\ parked' = parked \ {id}
    /\ gone' = (gone \/ cur = id)
    /\ coll' = [coll EXCEPT !.must = @ \ {id}, !.e = Drop(@, {id})]
    /\ UnchLoop2
    /\ UNCHANGED <<upd, pend, unloop>>

Hold(id, h) ==
    /\ UserCode
    /\ id \in DOMAIN typ
    /\ ref' = IF h THEN ref \cup {id} ELSE ref \ {id}
    /\ UnchLoop
    /\ UNCHANGED <<upd, gone, typ, tm, fd, px, sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

Unloop ==
    /\ UserCode
    /\ unloop' = TRUE
    /\ UnchLoop
    /\ UNCHANGED <<upd, gone, typ, ref, tm, fd, px, sg, ch, todo, may, evs, marked, idle, parked, pend>>

(* the callback, or the user outside of the loop, takes time *)
Work(d) ==
    /\ UserCode
    /\ clock' = clock + d
    /\ UNCHANGED <<coll, ph, run, tmo, start, until, cur, lastidle, hasrun, upd, gone, typ, ref, tm, fd, px, sg, ch,
                   todo, may, evs, marked, idle, parked, pend, unloop>>

(* what the user can ask *)
Due(t) == Key(t) = MinKey /\ tm[t].exp <= clock
NotDue(t) == Key(t) = MinKey /\ tm[t].exp > clock
ReadyFds == {f \in DOMAIN fd : ReadyEv(f) # 0}
(* the descriptors found ready by the question are those of the next iteration *)
Pending(r) ==
    /\ ph = "out"
    /\ \E d \in BOOLEAN :
       /\ IF DOMAIN tm = {} THEN d = FALSE
          ELSE \E t \in DOMAIN tm : IF d THEN Due(t) ELSE NotDue(t)
       /\ r = (pend # {} \/ d \/ coll.on \/ ReadyFds # {})
       /\ coll' = IF pend # {} \/ d \/ coll.on \/ ReadyFds = {} THEN coll
                  ELSE [on |-> TRUE, e |-> [f \in ReadyFds |-> ReadyEv(f)], must |-> ReadyFds]
    /\ UNCHANGED <<clock, ph, run, tmo, start, until, cur, lastidle, hasrun, upd, gone, typ, ref, tm, fd, px, sg,
                   ch, todo, may, evs, marked, idle, parked, pend, unloop>>

---------------------------------------------------------------------------
(* The loop.                                                               *)
U0 == UNCHANGED <<coll, clock, run, cur, upd, gone, typ, ref, tm, fd, px, sg, ch, unloop>>

Begin(t) ==
    /\ ph = "out"
    /\ ph' = "T1" /\ run' = FALSE /\ tmo' = t /\ start' = clock /\ until' = clock
    /\ UNCHANGED <<coll, clock, cur, upd, gone, typ, ref, tm, fd, px, sg, ch, todo, may, evs, marked, idle, parked,
                   lastidle, hasrun, pend, unloop>>

BeginRun ==
    /\ ph = "out"
    /\ ph' = "end" /\ run' = TRUE /\ tmo' = 59000
    /\ UNCHANGED <<coll, clock, cur, upd, gone, start, until, typ, ref, tm, fd, px, sg, ch, todo, may, evs, marked, idle,
                   parked, lastidle, hasrun, pend, unloop>>

NextIteration ==
    /\ ph = "end" /\ run /\ ref # {} /\ ~unloop
    /\ ph' = "T1" /\ start' = clock /\ until' = clock /\ tmo' = 59000
    /\ U0 /\ UNCHANGED <<todo, may, evs, marked, idle, parked, lastidle, hasrun, pend>>

End ==
    /\ ph = "end" /\ (run => ref = {} \/ unloop)
    /\ ph' = "out" /\ run' = FALSE
    /\ unloop' = IF run THEN FALSE ELSE unloop
    /\ UNCHANGED <<coll, clock, cur, upd, gone, start, until, tmo, typ, ref, tm, fd, px, sg, ch, todo, may, evs, marked,
                   idle, parked, lastidle, hasrun, pend>>

(* the timer with the least deadline (any of them when there are several) is not due: the pass is over *)
NoneDue == DOMAIN tm = {} \/ \E t \in DOMAIN tm : Key(t) = MinKey /\ tm[t].exp > until

EarlyDead == {c \in DOMAIN ch : ch[c].early}
EndT1 ==
    /\ ph = "T1" /\ cur = -1 /\ NoneDue
    /\ IF unloop
       THEN ph' = "end" /\ UNCHANGED <<todo, may>>
       ELSE ph' = "B" /\ todo' = Of("before") \cup EarlyDead /\ may' = Of("before") \cup EarlyDead
    /\ U0 /\ UNCHANGED <<tmo, start, until, evs, marked, idle, parked, lastidle, hasrun, pend>>

EndB ==
    /\ ph = "B" /\ cur = -1 /\ todo = {}
    /\ ph' = "I"
    /\ LET i == IF lastidle = -1 \/ start - lastidle > 600000 THEN idle \cup parked ELSE idle
           p == IF lastidle = -1 \/ start - lastidle > 600000 THEN {} ELSE parked IN
       IF hasrun
       THEN /\ todo' = {} /\ may' = {} /\ idle' = i /\ parked' = p /\ UNCHANGED lastidle
       ELSE /\ todo' = i /\ may' = i /\ idle' = {} /\ parked' = p \cup i /\ lastidle' = start
    /\ U0 /\ UNCHANGED <<tmo, start, until, evs, marked, hasrun, pend>>

EndI ==
    /\ ph = "I" /\ cur = -1 /\ todo = {}
    /\ ph' = "M"
    (* a sleep is due only if nothing was ready at this point *)
    /\ tmo' = IF ReadyProxies # {} \/ idle # {} \/ marked # {} THEN 0 ELSE tmo
    /\ todo' = marked /\ may' = marked /\ marked' = {}
    /\ U0 /\ UNCHANGED <<start, until, evs, idle, parked, lastidle, hasrun, pend>>

EndM ==
    /\ ph = "M" /\ cur = -1 /\ todo = {}
    /\ ph' = "W" /\ may' = {}
    /\ U0 /\ UNCHANGED <<tmo, start, until, todo, evs, marked, idle, parked, lastidle, hasrun, pend>>

(* t: how long the loop is ready to sleep; d: how long it slept *)
Bound ==
    LET b == IF DOMAIN tm = {} THEN tmo
             ELSE IF MinKey <= start THEN 0 ELSE Min(tmo, MinKey - start)
    IN IF pend # {} THEN 0 ELSE b

Poll(t, d) ==
    /\ ph = "W" /\ ~coll.on
    /\ t <= Bound /\ (Bound > 0 => t > 0) /\ t >= 0
    /\ d <= t
    /\ (ReadyFds # {} => d = 0)
    /\ clock' = clock + d
    /\ until' = clock'
    /\ ph' = "T2"
    /\ hasrun' = FALSE
    /\ IF d > 100 THEN idle' = idle \cup parked /\ parked' = {} ELSE UNCHANGED <<idle, parked>>
    /\ evs' = [f \in ReadyFds |-> ReadyEv(f)]
    /\ todo' = ReadyFds /\ may' = ReadyFds
    /\ UNCHANGED <<coll, run, tmo, cur, upd, gone, typ, ref, tm, fd, px, sg, ch, unloop, start, marked, lastidle,
                   pend>>

(* the ready descriptors are known already: no sleep *)
SkipPoll ==
    /\ ph = "W" /\ coll.on
    /\ until' = clock /\ ph' = "T2" /\ hasrun' = FALSE
    /\ evs' = coll.e /\ todo' = coll.must /\ may' = DOMAIN coll.e
    /\ coll' = NoColl
    /\ UNCHANGED <<clock, run, tmo, cur, upd, gone, typ, ref, tm, fd, px, sg, ch, unloop, start, marked, lastidle,
                   pend, idle, parked>>

MaxPrio(S) == CHOOSE p \in {fd[f].prio : f \in S} : \A f \in S : fd[f].prio <= p
EndT2 ==
    /\ ph = "T2" /\ cur = -1 /\ NoneDue
    /\ ph' = "F"
    /\ IF may = {} THEN UNCHANGED <<todo, may>>
       ELSE LET m == MaxPrio(may) IN
            /\ may' = {f \in may : fd[f].prio = m}
            /\ todo' = {f \in todo : fd[f].prio = m}
    /\ U0 /\ UNCHANGED <<tmo, start, until, evs, marked, idle, parked, lastidle, hasrun, pend>>

EndF ==
    /\ ph = "F" /\ cur = -1 /\ todo = {}
    /\ ph' = "P" /\ todo' = ReadyProxies /\ may' = ReadyProxies /\ evs' = Empty
    /\ U0 /\ UNCHANGED <<tmo, start, until, marked, idle, parked, lastidle, hasrun, pend>>

(* 0 in may: SIGCHLD is being handled *)
DeadChildren == {c \in DOMAIN ch : ch[c].dead /\ ~ch[c].early}
EndP ==
    /\ ph = "P" /\ cur = -1 /\ todo = {}
    /\ ph' = "S"
    /\ LET s == {i \in DOMAIN sg : sg[i] \in pend}
           c == IF SIGCHLD \in pend THEN DeadChildren ELSE {} IN
       /\ todo' = s \cup c
       /\ may' = s \cup c \cup (IF SIGCHLD \in pend THEN {0} ELSE {})
    /\ pend' = {}
    /\ hasrun' = (hasrun \/ SIGCHLD \in pend)
    /\ U0 /\ UNCHANGED <<tmo, start, until, evs, marked, idle, parked, lastidle>>

EndS ==
    /\ ph = "S" /\ cur = -1 /\ todo = {}
    /\ ph' = "end" /\ may' = {}
    /\ U0 /\ UNCHANGED <<tmo, start, until, todo, evs, marked, idle, parked, lastidle, hasrun, pend>>

Advance ==
    \/ NextIteration \/ EndT1 \/ EndB \/ EndI \/ EndM \/ SkipPoll \/ EndT2 \/ EndF \/ EndP \/ EndS

---------------------------------------------------------------------------
(* Callbacks.                                                              *)
UF == UNCHANGED <<coll, clock, ph, run, tmo, start, until, px, sg, evs, marked, idle, parked, lastidle, pend, unloop>>

FireTimer(id) ==
    /\ ph \in {"T1", "T2"} /\ cur = -1
    /\ id \in DOMAIN tm /\ id < 1000
    /\ Key(id) = MinKey /\ tm[id].exp <= until
    /\ cur' = id /\ upd' = FALSE /\ gone' = FALSE
    /\ UF /\ UNCHANGED <<typ, ref, tm, fd, ch, todo, may, hasrun>>

(* no activity on a watched descriptor *)
FireAct(id) ==
    /\ ph \in {"T1", "T2"} /\ cur = -1
    /\ Act(id) \in DOMAIN tm
    /\ Key(Act(id)) = MinKey /\ tm[Act(id)].exp <= until
    /\ cur' = id /\ upd' = FALSE /\ gone' = FALSE
    /\ tm' = Drop(tm, {Act(id)})
    /\ UF /\ UNCHANGED <<typ, ref, fd, ch, todo, may, hasrun>>

(* activity that counts restarts the watch *)
Touch(id, e) ==
    IF Watched(id) /\ And(e, fd[id].act) # 0
    THEN [tm EXCEPT ![Act(id)].exp = clock - tm[Act(id)].rep] ELSE tm

FireFd(id, e) ==
    /\ cur = -1 /\ id \in may
    /\ \/ ph = "M" /\ e = PIN
       \/ ph = "F" /\ e = evs[id]
    /\ cur' = id /\ upd' = FALSE /\ gone' = FALSE
    /\ tm' = Touch(id, e)
    /\ fd' = IF fd[id].wake THEN [fd EXCEPT ![id].n = 0] ELSE fd
    /\ todo' = todo \ {id} /\ may' = may \ {id}
    /\ UF /\ UNCHANGED <<typ, ref, ch, hasrun>>

FireHook(id, p) ==
    /\ cur = -1 /\ ph = p /\ id \in may
    /\ cur' = id /\ upd' = FALSE /\ gone' = FALSE
    /\ todo' = todo \ {id} /\ may' = may \ {id}
    /\ UF /\ UNCHANGED <<typ, ref, tm, fd, ch, hasrun>>

FireBefore(id) == id \in Of("before") /\ FireHook(id, "B")
FireIdle(id) == id \in Of("idle") /\ FireHook(id, "I")
FireSig(id, s) == id \in DOMAIN sg /\ s = sg[id] /\ FireHook(id, "S")
FireProxy(id, e) == id \in DOMAIN px /\ PReady(id) /\ e = px[id].av /\ FireHook(id, "P")
FireChild(id, st) ==
    /\ id \in DOMAIN ch /\ ch[id].dead /\ st = ch[id].st
    /\ IF ch[id].early THEN FireHook(id, "B") ELSE FireHook(id, "S")

(* the callback returns *)
NextExp(t) ==
    LET x == t.exp + t.rep IN
    IF t.nm \/ x >= until THEN x ELSE x + (((until - x) + t.rep - 1) \div t.rep) * t.rep

Forget(id) ==
    /\ typ' = Drop(typ, {id}) /\ ref' = ref \ {id} /\ tm' = Drop(tm, {id}) /\ ch' = Drop(ch, {id})

Ret(id) ==
    /\ cur = id /\ id # -1
    /\ cur' = -1 /\ upd' = FALSE /\ gone' = FALSE
    /\ hasrun' = IF ph \in {"B", "I"} THEN hasrun ELSE TRUE
    /\ IF gone THEN UNCHANGED <<typ, ref, tm, ch>>
       ELSE CASE typ[id] = "timer" /\ tm[id].rep > 0 ->
                   /\ tm' = [tm EXCEPT ![id].exp = NextExp(tm[id]), ![id].tol = Tol(tm[id].low, tm[id].rep)]
                   /\ UNCHANGED <<typ, ref, ch>>
              [] typ[id] = "timer" /\ tm[id].rep <= 0 /\ ~upd -> Forget(id)
              [] typ[id] = "child" -> Forget(id)
              [] OTHER -> UNCHANGED <<typ, ref, tm, ch>>
    /\ UF /\ UNCHANGED <<fd, todo, may>>

(* every event was unregistered: a new history begins *)
ResetAll ==
    /\ ph = "out" /\ DOMAIN typ = {} /\ DOMAIN tm = {}
    /\ UNCHANGED <<coll, clock, ph, run, tmo, start, until, cur, lastidle, hasrun, upd, gone, typ, ref, tm, fd, px,
                   sg, ch, todo, may, evs, marked, idle, parked, pend, unloop>>

---------------------------------------------------------------------------
(* Invariants of the model.                                                *)
RefsRegistered == ref \subseteq DOMAIN typ
TodoRegistered == todo \subseteq (DOMAIN typ)
WatchRegistered == \A t \in DOMAIN tm : t >= 1000 => (t - 1000) \in DOMAIN fd
=============================================================================
