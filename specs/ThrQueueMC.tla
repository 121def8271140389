----------------------------- MODULE ThrQueueMC -----------------------------
(* The specification of jobs, explored with every environment of a few jobs.  *)
EXTENDS ThrJobs
CONSTANTS NJ, Queues, Threads
J == 1..NJ
\* a thread acts if it is the main thread, or runs a job
Acts(t) == t = 0 \/ StackOf(t) # <<>>
\* a thread inside a synchronous post does nothing else, except run jobs
Blocked(t) == \E j \in open : info[j].t = t
Next ==
    \/ \E j \in J, q \in Queues \cup {0}, how \in {"async", "sync"}, t \in Threads :
          /\ Acts(t) /\ ~Blocked(t) /\ j = Cardinality(Jobs) + 1
          /\ (how = "sync" => q # 0)
          /\ Post(how, q, j, -1, t)
    \/ \E j \in J, t \in Threads : Posted(j, t)
    \/ \E j \in J, t \in Threads : Run(j, t)
    \/ \E j \in J, t \in Threads : ~Blocked(t) /\ Done(j, t)
Spec == Init /\ [][Next]_vars
OneAtATime == \A q \in Queues \ {Main} : Cardinality({ j \in Running : info[j].q = q /\ ~info[j].inl }) <= 1
InlineNested == \A j \in Running : (info[j].inl /\ info[j].q # Main) =>
                    \E t \in DOMAIN stack : \E a, b \in 1..Len(stack[t]) :
                        a < b /\ stack[t][b] = j /\ info[stack[t][a]].q = info[j].q
MainOnMain == \A t \in DOMAIN stack : \A j \in Elems(stack[t]) : info[j].q = Main => t = 0
Fifo == \A a, b \in Jobs : (a \in info[b].preds /\ b \in ran) => a \in fin
SyncDone == \A j \in ended : info[j].how = "sync" => j \in fin
OnceEach == \A j \in Jobs : Cardinality({ t \in DOMAIN stack : j \in Elems(stack[t]) }) <= 1 /\ (j \in fin => j \notin Running)
=============================================================================
