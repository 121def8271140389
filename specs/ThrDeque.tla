------------------------------ MODULE ThrDeque ------------------------------
(* The per-thread deque of jobs, one atomic access per step: the owner pushes *)
(* at the bottom and takes from the bottom, thieves take from the top; a full *)
(* deque or a slot that a thief has not emptied yet makes the owner run the   *)
(* job itself.  Checked: every job runs exactly once and none is lost.        *)
EXTENDS Integers, FiniteSets
CONSTANTS NJobs, Thieves, Size
VARIABLES top, bot, slot, pc, r, jobs, count, next
vars == <<top, bot, slot, pc, r, jobs, count, next>>
Owner == 0
T == Thieves \cup {Owner}
Nil == 0
Init ==
    /\ top = 0 /\ bot = 0 /\ slot = [i \in 0..(Size - 1) |-> Nil]
    /\ pc = [t \in T |-> "idle"] /\ r = [t \in T |-> [b |-> 0, t |-> 0]]
    /\ jobs = [t \in T |-> Nil] /\ count = [j \in 1..NJobs |-> 0] /\ next = 1
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
RunJob(j) == count' = [count EXCEPT ![j] = @ + 1]
U(x) == UNCHANGED x

\* owner: schedule
OPush == /\ pc[Owner] = "idle" /\ next <= NJobs /\ r' = [r EXCEPT ![Owner].b = bot]
         /\ Go(Owner, "p_top") /\ U(<<top, bot, slot, jobs, count, next>>)
OTop == /\ pc[Owner] = "p_top"
        /\ IF r[Owner].b - top >= Size THEN Go(Owner, "p_local") ELSE Go(Owner, "p_slot")
        /\ U(<<top, bot, slot, r, jobs, count, next>>)
OSlot == /\ pc[Owner] = "p_slot"
         /\ Go(Owner, IF slot[r[Owner].b % Size] # Nil THEN "p_local" ELSE "p_store")
         /\ U(<<top, bot, slot, r, jobs, count, next>>)
OLocal == /\ pc[Owner] = "p_local" /\ RunJob(next) /\ next' = next + 1 /\ Go(Owner, "idle")
          /\ U(<<top, bot, slot, r, jobs>>)
OStore == /\ pc[Owner] = "p_store" /\ slot' = [slot EXCEPT ![r[Owner].b % Size] = next]
          /\ next' = next + 1 /\ Go(Owner, "p_bot") /\ U(<<top, bot, r, jobs, count>>)
OBot == /\ pc[Owner] = "p_bot" /\ bot' = r[Owner].b + 1 /\ Go(Owner, "idle")
        /\ U(<<top, slot, r, jobs, count, next>>)
\* owner: dequeue
DBot == /\ pc[Owner] = "idle" /\ r' = [r EXCEPT ![Owner].b = bot - 1] /\ Go(Owner, "d_bot")
        /\ U(<<top, bot, slot, jobs, count, next>>)
DSet == /\ pc[Owner] = "d_bot" /\ bot' = r[Owner].b /\ Go(Owner, "d_top") /\ U(<<top, slot, r, jobs, count, next>>)
DTop == /\ pc[Owner] = "d_top" /\ r' = [r EXCEPT ![Owner].t = top]
        /\ Go(Owner, IF r[Owner].b - top > 0 THEN "d_take" ELSE IF r[Owner].b = top THEN "d_cas" ELSE "d_undo")
        /\ U(<<top, bot, slot, jobs, count, next>>)
DCas == /\ pc[Owner] = "d_cas"
        /\ IF top = r[Owner].t THEN top' = top + 1 /\ Go(Owner, "d_rest") ELSE U(top) /\ Go(Owner, "d_undo")
        /\ U(<<bot, slot, r, jobs, count, next>>)
DRest == /\ pc[Owner] = "d_rest" /\ bot' = r[Owner].t + 1 /\ Go(Owner, "d_take")
         /\ U(<<top, slot, r, jobs, count, next>>)
DUndo == /\ pc[Owner] = "d_undo" /\ bot' = r[Owner].b + 1 /\ Go(Owner, "idle") /\ U(<<top, slot, r, jobs, count, next>>)
DTake == /\ pc[Owner] = "d_take" /\ jobs' = [jobs EXCEPT ![Owner] = slot[r[Owner].b % Size]]
         /\ Go(Owner, "d_clear") /\ U(<<top, bot, slot, r, count, next>>)
DClear == /\ pc[Owner] = "d_clear" /\ slot' = [slot EXCEPT ![r[Owner].b % Size] = Nil]
          /\ Go(Owner, "d_run") /\ U(<<top, bot, r, jobs, count, next>>)
DRun == /\ pc[Owner] = "d_run" /\ RunJob(jobs[Owner]) /\ Go(Owner, "idle") /\ U(<<top, bot, slot, r, jobs, next>>)
\* thieves
STop(t) == /\ pc[t] = "idle" /\ r' = [r EXCEPT ![t].t = top] /\ Go(t, "s_bot") /\ U(<<top, bot, slot, jobs, count, next>>)
SBot(t) == /\ pc[t] = "s_bot" /\ Go(t, IF bot - r[t].t > 0 THEN "s_cas" ELSE "idle")
           /\ U(<<top, bot, slot, r, jobs, count, next>>)
SCas(t) == /\ pc[t] = "s_cas"
           /\ IF top = r[t].t THEN top' = top + 1 /\ Go(t, "s_take") ELSE U(top) /\ Go(t, "idle")
           /\ U(<<bot, slot, r, jobs, count, next>>)
STake(t) == /\ pc[t] = "s_take" /\ jobs' = [jobs EXCEPT ![t] = slot[r[t].t % Size]] /\ Go(t, "s_clear")
            /\ U(<<top, bot, slot, r, count, next>>)
SClear(t) == /\ pc[t] = "s_clear" /\ slot' = [slot EXCEPT ![r[t].t % Size] = Nil] /\ Go(t, "s_run")
             /\ U(<<top, bot, r, jobs, count, next>>)
SRun(t) == /\ pc[t] = "s_run" /\ RunJob(jobs[t]) /\ Go(t, "idle") /\ U(<<top, bot, slot, r, jobs, next>>)

ONext == OPush \/ OTop \/ OSlot \/ OLocal \/ OStore \/ OBot \/ DBot \/ DSet \/ DTop \/ DCas \/ DRest
         \/ DUndo \/ DTake \/ DClear \/ DRun
TNext(t) == STop(t) \/ SBot(t) \/ SCas(t) \/ STake(t) \/ SClear(t) \/ SRun(t)
Next == ONext \/ \E t \in Thieves : TNext(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(OPush \/ OTop \/ OSlot \/ OLocal \/ OStore \/ OBot)
             /\ WF_vars(DSet \/ DTop \/ DCas \/ DRest \/ DUndo \/ DTake \/ DClear \/ DRun)
             /\ \A t \in Thieves : WF_vars(TNext(t))
AtMostOnce == \A j \in 1..NJobs : count[j] <= 1
RealJobs == \A t \in T : pc[t] \in {"d_clear", "d_run", "s_clear", "s_run"} => jobs[t] # Nil
Quiet == \A t \in T : pc[t] = "idle"
InDeque == { slot[i] : i \in 0..(Size - 1) } \ {Nil}
NoneLost == Quiet => \A j \in 1..(next - 1) : (count[j] = 1) # (j \in InDeque)
NotHidden == Quiet => Cardinality(InDeque) = bot - top
=============================================================================
