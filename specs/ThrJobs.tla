------------------------------ MODULE ThrJobs -------------------------------
(* Jobs: posted on serial queues, on the main queue or unordered; completion  *)
(* groups ("syn"); thread data; parallel loops.                               *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES info,     \* info[j]: what was asked when j was posted
          open,     \* posts in progress
          ended,    \* posts that returned
          ran,      \* jobs that started
          fin,      \* jobs that ended
          stack,    \* stack[t]: jobs being run by thread t, innermost last
          tds,      \* thread data: [s, state]
          loops,    \* parallel loops
          dest,     \* queues being destroyed
          ev
vars == <<info, open, ended, ran, fin, stack, tds, loops, dest, ev>>
Main == 99
Jobs == DOMAIN info
Elems(sq) == { sq[i] : i \in 1..Len(sq) }
StackOf(t) == IF t \in DOMAIN stack THEN stack[t] ELSE <<>>
Running == UNION { Elems(stack[t]) : t \in DOMAIN stack }
OnQueue(q, t) == (q = Main /\ t = 0) \/ (\E j \in Elems(StackOf(t)) : info[j].q = q)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

InitState ==
    /\ info = <<>> /\ open = {} /\ ended = {} /\ ran = {} /\ fin = {}
    /\ stack = <<>> /\ tds = <<>> /\ loops = <<>> /\ dest = {}
Init == InitState /\ ev = [op |-> "init"]
Reset ==
    /\ info' = <<>> /\ open' = {} /\ ended' = {} /\ ran' = {} /\ fin' = {}
    /\ stack' = <<>> /\ tds' = <<>> /\ loops' = <<>> /\ dest' = {}

Rest == <<stack, tds, loops, dest>>

Post(how, q, j, s, t) ==
    /\ j \notin Jobs /\ q \notin dest
    /\ LET inl == how = "sync" /\ OnQueue(q, t) IN
       info' = Put(info, j, [q |-> q, how |-> how, s |-> s, t |-> t, inl |-> inl,
                    preds |-> IF q = 0 \/ inl \/ how = "notify" THEN {}
                              ELSE { k \in ended \ fin : info[k].q = q /\ info[k].how # "notify" /\ ~info[k].inl },
                    after |-> {}])
    /\ open' = open \cup {j}
    /\ UNCHANGED <<ended, ran, fin>> /\ UNCHANGED Rest
    /\ ev' = [op |-> "post", how |-> how, q |-> q, j |-> j, s |-> s, t |-> t]

(* A synchronous post returns after the job ended. *)
Posted(j, t) ==
    /\ j \in open /\ info[j].t = t
    /\ info[j].how = "sync" => j \in fin
    /\ open' = open \ {j} /\ ended' = ended \cup {j}
    /\ UNCHANGED <<info, ran, fin>> /\ UNCHANGED Rest
    /\ ev' = [op |-> "posted", j |-> j, t |-> t]

(* The job will come after every job of the group posted so far. *)
Notify(s, j) ==
    /\ j \in open
    /\ info' = [info EXCEPT ![j].after = { k \in Jobs : info[k].s = s }]
    /\ UNCHANGED <<open, ended, ran, fin>> /\ UNCHANGED Rest
    /\ ev' = [op |-> "notify", s |-> s, j |-> j]

Run(j, t) ==
    /\ j \in Jobs /\ j \notin ran                                   \* at most once
    /\ info[j].q = Main => t = 0
    /\ info[j].inl => t = info[j].t
    /\ info[j].after \subseteq fin
    /\ (info[j].q # 0 /\ ~info[j].inl) =>
          /\ info[j].preds \subseteq fin                            \* in order
          /\ \A k \in Running : info[k].q = info[j].q => (info[k].q = Main /\ info[k].inl)   \* alone
    /\ ran' = ran \cup {j}
    /\ stack' = Put(stack, t, Append(StackOf(t), j))
    /\ UNCHANGED <<info, open, ended, fin, tds, loops, dest>>
    /\ ev' = [op |-> "run", j |-> j, t |-> t]

Done(j, t) ==
    /\ StackOf(t) # <<>> /\ StackOf(t)[Len(StackOf(t))] = j
    /\ fin' = fin \cup {j}
    /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
    /\ UNCHANGED <<info, open, ended, ran, tds, loops, dest>>
    /\ ev' = [op |-> "done", j |-> j, t |-> t]

Group(s) == { k \in Jobs : info[k].s = s }
SameAll == UNCHANGED <<info, open, ended, ran, fin>> /\ UNCHANGED Rest

Open(s) == /\ Group(s) = {} /\ SameAll /\ ev' = [op |-> "open", s |-> s]
Wait0(s, t) == SameAll /\ ev' = [op |-> "wait0", s |-> s, t |-> t]
Wait1(s, t) == Group(s) \subseteq fin /\ SameAll /\ ev' = [op |-> "wait1", s |-> s, t |-> t]
Until0(s, c, t) == SameAll /\ ev' = [op |-> "until0", s |-> s, c |-> c, t |-> t]
Until1(s, c, t) == Cardinality(Group(s) \cap fin) >= c /\ SameAll
                   /\ ev' = [op |-> "until1", s |-> s, c |-> c, t |-> t]
Wipe(s) ==
    /\ Group(s) \subseteq fin
    /\ \A d \in DOMAIN tds : tds[d].s = s => tds[d].st = "gone"
    /\ SameAll /\ ev' = [op |-> "wipe", s |-> s]

TdRest == UNCHANGED <<info, open, ended, ran, fin, stack, loops, dest>>
NewTd(s, d) == /\ d \notin DOMAIN tds /\ tds' = Put(tds, d, [s |-> s, st |-> "free"]) /\ TdRest
               /\ ev' = [op |-> "newtd", s |-> s, td |-> d]
Acq(s, d) == /\ d \in DOMAIN tds /\ tds[d] = [s |-> s, st |-> "free"]
             /\ tds' = [tds EXCEPT ![d].st = "held"] /\ TdRest
             /\ ev' = [op |-> "acq", s |-> s, td |-> d]
Rel(s, d) == /\ d \in DOMAIN tds /\ tds[d] = [s |-> s, st |-> "held"]
             /\ tds' = [tds EXCEPT ![d].st = "free"] /\ TdRest
             /\ ev' = [op |-> "rel", s |-> s, td |-> d]
DelTd(s, d) == /\ d \in DOMAIN tds /\ tds[d] = [s |-> s, st |-> "free"]
               /\ tds' = [tds EXCEPT ![d].st = "gone"] /\ TdRest
               /\ ev' = [op |-> "deltd", s |-> s, td |-> d]
Collect(s, l) ==
    /\ Elems(l) = { d \in DOMAIN tds : tds[d].s = s } /\ Len(l) = Cardinality(Elems(l))
    /\ UNCHANGED tds /\ TdRest /\ ev' = [op |-> "collect", s |-> s, tds |-> l]

FeRest == UNCHANGED <<info, open, ended, ran, fin, stack, tds, dest>>
Fe0(f, c) == /\ f \notin DOMAIN loops /\ loops' = Put(loops, f, [n |-> c, on |-> {}, did |-> {}]) /\ FeRest
             /\ ev' = [op |-> "fe0", f |-> f, n |-> c]
FePos(f, p) == /\ f \in DOMAIN loops /\ p \in 0..(loops[f].n - 1) /\ p \notin loops[f].on
               /\ loops' = [loops EXCEPT ![f].on = @ \cup {p}] /\ FeRest
               /\ ev' = [op |-> "fepos", f |-> f, p |-> p]
FePosD(f, p) == /\ f \in DOMAIN loops /\ p \in loops[f].on
                /\ loops' = [loops EXCEPT ![f].did = @ \cup {p}] /\ FeRest
                /\ ev' = [op |-> "feposd", f |-> f, p |-> p]
Fe1(f) == /\ f \in DOMAIN loops /\ loops[f].did = 0..(loops[f].n - 1)
          /\ loops' = [loops EXCEPT ![f].n = 0] /\ FeRest
          /\ ev' = [op |-> "fe1", f |-> f]

Destroy(q) == /\ dest' = dest \cup {q} /\ UNCHANGED <<info, open, ended, ran, fin, stack, tds, loops>>
              /\ ev' = [op |-> "destroy", q |-> q]
Destroyed(q) == /\ \A j \in Jobs : info[j].q = q => j \in fin
                /\ SameAll /\ ev' = [op |-> "destroyed", q |-> q]

IsOn(q, r, t) == r = OnQueue(q, t) /\ SameAll /\ ev' = [op |-> "ison", q |-> q, r |-> r, t |-> t]

(* Nothing is lost: in the end everything that was posted has run. *)
End == fin = Jobs /\ open = {} /\ SameAll /\ ev' = [op |-> "end"]
Stop == SameAll /\ ev' = [op |-> "stop"]
=============================================================================
