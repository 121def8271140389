-------------------------------- MODULE MPSC --------------------------------
(* What users of the lock-free queues may observe.  Producers push items; one *)
(* consumer at a time drains or pops.  A push is an interval (Push..Pushed),  *)
(* and so is a pop (Pop0..Pop1); everything else is an instant.               *)
EXTENDS Naturals, FiniteSets
VARIABLES kind,       \* how the queue is consumed in this history
          n,          \* number of items of the history
          pushing,    \* items being pushed
          ended,      \* items whose push has returned
          preds,      \* preds[i]: pushed before i's push began, undelivered then
          busy,       \* busy[i]: the queue held something else during i's push
          delivered,  \* items given to the consumer
          released,   \* items out of the queue
          freed,      \* nodes given back
          tokens,     \* pushes that found the queue empty, not yet acted upon
          cons,       \* 0: nobody consumes; else who drains
          fin,        \* drains that gave the role up and only have a node to give back
          pop,        \* is a pop in progress; what it must not miss
          ev
vars == <<kind, n, pushing, ended, preds, busy, delivered, released, freed, tokens, cons, fin, pop, ev>>

Items == 1..n
NoPop == [on |-> FALSE, base |-> {}, ov |-> FALSE]
Live == (pushing \cup ended) \ released

Clear(k, m) ==
    /\ kind' = k /\ n' = m
    /\ pushing' = {} /\ ended' = {} /\ delivered' = {} /\ released' = {} /\ freed' = {}
    /\ preds' = [i \in 1..m |-> {}] /\ busy' = [i \in 1..m |-> FALSE]
    /\ tokens' = 0 /\ cons' = 0 /\ fin' = {} /\ pop' = NoPop

Push(i) ==
    /\ i \in Items /\ i \notin pushing \cup ended
    /\ pushing' = pushing \cup {i}
    /\ preds' = [preds EXCEPT ![i] = ended \ delivered]
    /\ busy' = [j \in Items |-> IF j = i THEN Live # {} ELSE busy[j] \/ j \in pushing]
    /\ pop' = [pop EXCEPT !.ov = TRUE]
    /\ UNCHANGED <<kind, n, ended, delivered, released, freed, tokens, cons, fin>>
    /\ ev' = [op |-> "push", i |-> i]

(* A push says "empty" to exactly one producer per batch, and only when all   *)
(* that was pushed before is out; it says "busy" only if something else was   *)
(* in the queue.                                                              *)
Pushed(i, r) ==
    /\ i \in pushing
    /\ IF kind = "spsc" THEN r = "none" ELSE r \in {"empty", "busy"}
    /\ r = "empty" => Cardinality(preds[i] \ delivered) <= (IF pop.on THEN 1 ELSE 0)
    /\ r = "busy" => busy[i]
    /\ pushing' = pushing \ {i} /\ ended' = ended \cup {i}
    /\ tokens' = tokens + (IF r = "empty" THEN 1 ELSE 0)
    /\ UNCHANGED <<kind, n, preds, busy, delivered, released, freed, cons, fin, pop>>
    /\ ev' = [op |-> "pushed", i |-> i, r |-> r]

(* A drain may begin while the previous one is giving its last node back: the *)
(* role of consumer went with the "empty" answer.                             *)
Drain(t) ==
    /\ ~pop.on /\ t # cons /\ t \notin fin
    /\ IF kind = "mix" THEN cons = 0 /\ UNCHANGED tokens ELSE tokens > 0 /\ tokens' = tokens - 1
    /\ Live # {}
    /\ fin' = IF cons = 0 THEN fin ELSE fin \cup {cons}
    /\ cons' = t
    /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, delivered, released, freed, pop>>
    /\ ev' = [op |-> "drain", t |-> t]

CanDeliver(i) ==
    /\ i \in pushing \cup ended /\ i \notin delivered
    /\ preds[i] \subseteq delivered          \* first in, first out

Deliver(i, t) ==
    /\ cons = t /\ CanDeliver(i)
    /\ delivered' = delivered \cup {i}
    /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, released, freed, tokens, cons, fin, pop>>
    /\ ev' = [op |-> "deliver", i |-> i, t |-> t]

(* The end of a drain leaves nothing behind that nobody will be told about. *)
Drained(t) ==
    /\ t \in fin \cup {cons}
    /\ t = cons => ended \subseteq delivered \/ tokens > 0 \/ pushing # {}
    /\ IF t = cons THEN cons' = 0 /\ released' = delivered /\ UNCHANGED fin
       ELSE fin' = fin \ {t} /\ UNCHANGED <<cons, released>>
    /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, delivered, freed, tokens, pop>>
    /\ ev' = [op |-> "drained", t |-> t]

(* A node is given back once, after its item was delivered. *)
Free(i) ==
    /\ i \in delivered \ freed
    /\ freed' = freed \cup {i}
    /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, delivered, released, tokens, cons, fin, pop>>
    /\ ev' = [op |-> "free", i |-> i]

Pop0 ==
    /\ cons = 0 /\ ~pop.on
    /\ pop' = [on |-> TRUE, base |-> ended \ delivered, ov |-> pushing # {}]
    /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, delivered, released, freed, tokens, cons, fin>>
    /\ ev' = [op |-> "pop0"]

(* A pop finds nothing only if nothing was there, or a push was in progress. *)
Pop1(i) ==
    /\ pop.on
    /\ IF i = 0 THEN /\ pop.base = {} \/ (pop.ov /\ kind # "spsc")
                     /\ UNCHANGED <<delivered, released>>
       ELSE /\ CanDeliver(i)
            /\ delivered' = delivered \cup {i} /\ released' = released \cup {i}
    /\ pop' = NoPop
    /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, freed, tokens, cons, fin>>
    /\ ev' = [op |-> "pop1", i |-> i]

(* No false negative: a queue that looks non-empty is non-empty. *)
Looks(r) ==
    /\ IF r THEN ended \subseteq delivered \/ pushing # {} ELSE Live # {}
    /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, delivered, released, freed, tokens, cons, fin, pop>>
    /\ ev' = [op |-> "looks", r |-> r]

(* Everything was delivered, exactly once, and every node was given back. *)
End ==
    /\ delivered = Items /\ ended = Items /\ cons = 0 /\ fin = {} /\ ~pop.on
    /\ kind = "spsc" \/ freed = Items
    /\ kind \in {"comb", "thr"} => tokens = 0
    /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, delivered, released, freed, tokens, cons, fin, pop>>
    /\ ev' = [op |-> "end"]

Reset(k, m) == Clear(k, m) /\ ev' = [op |-> "reset", n |-> m, kind |-> k]

InitWith(k, m) ==
    /\ kind = k /\ n = m
    /\ pushing = {} /\ ended = {} /\ delivered = {} /\ released = {} /\ freed = {}
    /\ preds = [i \in 1..m |-> {}] /\ busy = [i \in 1..m |-> FALSE]
    /\ tokens = 0 /\ cons = 0 /\ fin = {} /\ pop = NoPop
    /\ ev = [op |-> "init"]

Next ==
    \/ \E i \in Items : Push(i) \/ Pushed(i, "empty") \/ Pushed(i, "busy") \/ Pushed(i, "none")
                        \/ Free(i) \/ Pop1(i)
    \/ \E t \in 1..9 : Drain(t) \/ Drained(t) \/ \E i \in Items : Deliver(i, t)
    \/ Pop0 \/ Pop1(0) \/ Looks(TRUE) \/ Looks(FALSE) \/ End
=============================================================================
