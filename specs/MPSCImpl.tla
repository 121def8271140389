------------------------------ MODULE MPSCImpl ------------------------------
(* The algorithm of the MPSC queue, one atomic memory access per step, with   *)
(* the observable history kept alongside without any guard: TLC checks that   *)
(* every step is a step of MPSC (refinement), for the combining consumer and  *)
(* for the popping one.                                                       *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Prods, PerProd, K, Block
VARIABLES kind, n, pushing, ended, preds, busy, delivered, released, freed, tokens, cons, fin, pop, ev,
          next,    \* next[x] for x a node or 0 (the head of the queue)
          tail,
          pc, cur, reg, h, left
hist == <<kind, n, pushing, ended, preds, busy, delivered, released, freed, tokens, cons, fin, pop, ev>>
impl == <<next, tail, pc, cur, reg, h, left>>
A == INSTANCE MPSC

N == Cardinality(Prods) * PerProd
Nil == 99
Consumer == 9
Thr == Prods \cup {Consumer}
Item(p, k) == (p - 1) * PerProd + k

Init ==
    /\ A!InitWith(K, N)
    /\ next = [x \in 0..N |-> Nil] /\ tail = 0
    /\ pc = [t \in Thr |-> IF t = Consumer THEN (IF K = "comb" THEN "done" ELSE "c_idle") ELSE "p_next"]
    /\ cur = [t \in Thr |-> 0] /\ reg = [t \in Thr |-> Nil] /\ h = [t \in Thr |-> Nil]
    /\ left = [t \in Thr |-> PerProd]

U(x) == UNCHANGED x
Goto(t, where) == pc' = [pc EXCEPT ![t] = where]

\* ---- history updates without their guards
HPush(i) == /\ pushing' = pushing \cup {i} /\ preds' = [preds EXCEPT ![i] = ended \ delivered]
            /\ busy' = [j \in 1..N |-> IF j = i THEN A!Live # {} ELSE busy[j] \/ j \in pushing]
            /\ pop' = [pop EXCEPT !.ov = TRUE]
            /\ UNCHANGED <<kind, n, ended, delivered, released, freed, tokens, cons, fin>>
            /\ ev' = [op |-> "push", i |-> i]
HPushed(i, r) == /\ pushing' = pushing \ {i} /\ ended' = ended \cup {i}
            /\ tokens' = tokens + (IF r = "empty" THEN 1 ELSE 0)
            /\ UNCHANGED <<kind, n, preds, busy, delivered, released, freed, cons, fin, pop>>
            /\ ev' = [op |-> "pushed", i |-> i, r |-> r]
HDrain(t) == /\ cons' = t /\ fin' = (IF cons = 0 THEN fin ELSE fin \cup {cons}) /\ tokens' = tokens - 1
            /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, delivered, released, freed, pop>>
            /\ ev' = [op |-> "drain", t |-> t]
HDeliver(i, t) == /\ delivered' = delivered \cup {i}
            /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, released, freed, tokens, cons, fin, pop>>
            /\ ev' = [op |-> "deliver", i |-> i, t |-> t]
HDrained(t) == /\ IF t = cons THEN cons' = 0 /\ released' = delivered /\ UNCHANGED fin
                  ELSE fin' = fin \ {t} /\ UNCHANGED <<cons, released>>
            /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, delivered, freed, tokens, pop>>
            /\ ev' = [op |-> "drained", t |-> t]
HFree(i) == /\ freed' = freed \cup {i}
            /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, delivered, released, tokens, cons, fin, pop>>
            /\ ev' = [op |-> "free", i |-> i]
HPop0 == /\ pop' = [on |-> TRUE, base |-> ended \ delivered, ov |-> pushing # {}]
         /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, delivered, released, freed, tokens, cons, fin>>
         /\ ev' = [op |-> "pop0"]
HPop1(i) == /\ IF i = 0 THEN UNCHANGED <<delivered, released>>
               ELSE delivered' = delivered \cup {i} /\ released' = released \cup {i}
            /\ pop' = A!NoPop
            /\ UNCHANGED <<kind, n, pushing, ended, preds, busy, freed, tokens, cons, fin>>
            /\ ev' = [op |-> "pop1", i |-> i]

\* ---- producers
PNext(t) == /\ pc[t] = "p_next"
            /\ IF left[t] = 0 THEN Goto(t, "done") /\ U(hist) /\ U(<<next, tail, cur, reg, h, left>>)
               ELSE LET i == Item(t, PerProd - left[t] + 1) IN
                    /\ HPush(i) /\ cur' = [cur EXCEPT ![t] = i] /\ left' = [left EXCEPT ![t] = @ - 1]
                    /\ Goto(t, "p_clear") /\ U(<<next, tail, reg, h>>)
PClear(t) == /\ pc[t] = "p_clear" /\ next' = [next EXCEPT ![cur[t]] = Nil]
             /\ Goto(t, "p_xchg") /\ U(hist) /\ U(<<tail, cur, reg, h, left>>)
PXchg(t) == /\ pc[t] = "p_xchg" /\ reg' = [reg EXCEPT ![t] = tail] /\ tail' = cur[t]
            /\ Goto(t, "p_link") /\ U(hist) /\ U(<<next, cur, h, left>>)
PLink(t) == /\ pc[t] = "p_link" /\ next' = [next EXCEPT ![reg[t]] = cur[t]]
            /\ HPushed(cur[t], IF reg[t] = 0 THEN "empty" ELSE "busy")
            /\ Goto(t, IF reg[t] = 0 /\ K = "comb" THEN "d_start" ELSE "p_next")
            /\ U(<<tail, cur, reg, h, left>>)

\* ---- drains
DStart(t) == /\ pc[t] = "d_start" /\ HDrain(t) /\ Goto(t, "d_load") /\ U(<<next, tail, cur, reg, h, left>>)
DLoad(t) == /\ pc[t] = "d_load" /\ h' = [h EXCEPT ![t] = next[0]] /\ Goto(t, "d_clr")
            /\ U(hist) /\ U(<<next, tail, cur, reg, left>>)
DClr(t) == /\ pc[t] = "d_clr" /\ next' = [next EXCEPT ![0] = Nil] /\ Goto(t, "d_fast")
           /\ U(hist) /\ U(<<tail, cur, reg, h, left>>)
DFast(t) == /\ pc[t] = "d_fast" /\ reg' = [reg EXCEPT ![t] = next[h[t]]]
            /\ Goto(t, IF next[h[t]] # Nil THEN "d_doit" ELSE "d_last")
            /\ U(hist) /\ U(<<next, tail, cur, h, left>>)
DDoit(t) == /\ pc[t] = "d_doit" /\ HDeliver(h[t], t) /\ Goto(t, "d_free") /\ U(<<next, tail, cur, reg, h, left>>)
DFree(t) == /\ pc[t] = "d_free" /\ HFree(h[t]) /\ h' = [h EXCEPT ![t] = reg[t]] /\ Goto(t, "d_fast")
            /\ U(<<next, tail, cur, reg, left>>)
DLast(t) == /\ pc[t] = "d_last" /\ HDeliver(h[t], t) /\ Goto(t, "e_load") /\ U(<<next, tail, cur, reg, h, left>>)
ELoad(t) == /\ pc[t] = "e_load" /\ Goto(t, IF tail = h[t] THEN "e_cas" ELSE "e_spin")
            /\ U(hist) /\ U(<<next, tail, cur, reg, h, left>>)
ECas(t) == /\ pc[t] = "e_cas"
           /\ IF tail = h[t] THEN tail' = 0 /\ Goto(t, "e_end") ELSE U(tail) /\ Goto(t, "e_spin")
           /\ U(hist) /\ U(<<next, cur, reg, h, left>>)
ESpin(t) == /\ pc[t] = "e_spin" /\ next[h[t]] # Nil /\ reg' = [reg EXCEPT ![t] = next[h[t]]]
            /\ Goto(t, "e_more") /\ U(hist) /\ U(<<next, tail, cur, h, left>>)
EMore(t) == /\ pc[t] = "e_more" /\ HFree(h[t]) /\ h' = [h EXCEPT ![t] = reg[t]] /\ Goto(t, "d_fast")
            /\ U(<<next, tail, cur, reg, left>>)
EEnd(t) == /\ pc[t] = "e_end" /\ HFree(h[t]) /\ Goto(t, "e_done") /\ U(<<next, tail, cur, reg, h, left>>)
EDone(t) == /\ pc[t] = "e_done" /\ HDrained(t) /\ Goto(t, "p_next") /\ U(<<next, tail, cur, reg, h, left>>)

\* ---- pops
C == Consumer
CIdle == /\ pc[C] = "c_idle" /\ delivered # 1..N /\ HPop0 /\ Goto(C, "c_head") /\ U(<<next, tail, cur, reg, h, left>>)
CEnd == /\ pc[C] = "c_idle" /\ delivered = 1..N /\ Goto(C, "done") /\ U(hist) /\ U(<<next, tail, cur, reg, h, left>>)
CHead == /\ pc[C] = "c_head" /\ h' = [h EXCEPT ![C] = next[0]]
         /\ Goto(C, IF next[0] = Nil THEN "c_none" ELSE "c_next")
         /\ U(hist) /\ U(<<next, tail, cur, reg, left>>)
CNone == /\ pc[C] = "c_none" /\ HPop1(0) /\ Goto(C, "c_idle") /\ U(<<next, tail, cur, reg, h, left>>)
CNext == /\ pc[C] = "c_next" /\ reg' = [reg EXCEPT ![C] = next[h[C]]]
         /\ Goto(C, IF next[h[C]] # Nil THEN "c_adv" ELSE "s_tail")
         /\ U(hist) /\ U(<<next, tail, cur, h, left>>)
CAdv == /\ pc[C] = "c_adv" /\ next' = [next EXCEPT ![0] = reg[C]] /\ Goto(C, "c_got")
        /\ U(hist) /\ U(<<tail, cur, reg, h, left>>)
CGot == /\ pc[C] = "c_got" /\ HPop1(h[C]) /\ Goto(C, "c_free") /\ U(<<next, tail, cur, reg, h, left>>)
CFree == /\ pc[C] = "c_free" /\ HFree(h[C]) /\ Goto(C, "c_idle") /\ U(<<next, tail, cur, reg, h, left>>)
STail == /\ pc[C] = "s_tail" /\ Goto(C, IF tail = h[C] THEN "s_clr" ELSE "s_next")
         /\ U(hist) /\ U(<<next, tail, cur, reg, h, left>>)
SClr == /\ pc[C] = "s_clr" /\ next' = [next EXCEPT ![0] = Nil] /\ Goto(C, "s_cas")
        /\ U(hist) /\ U(<<tail, cur, reg, h, left>>)
SCas == /\ pc[C] = "s_cas"
        /\ IF tail = h[C] THEN tail' = 0 /\ Goto(C, "c_got") ELSE U(tail) /\ Goto(C, "s_restore")
        /\ U(hist) /\ U(<<next, cur, reg, h, left>>)
SRestore == /\ pc[C] = "s_restore" /\ next' = [next EXCEPT ![0] = h[C]] /\ Goto(C, "s_next")
            /\ U(hist) /\ U(<<tail, cur, reg, h, left>>)
SNext == /\ pc[C] = "s_next" /\ (Block => next[h[C]] # Nil)
         /\ reg' = [reg EXCEPT ![C] = next[h[C]]]
         /\ Goto(C, IF next[h[C]] = Nil THEN "c_none" ELSE "c_adv")
         /\ U(hist) /\ U(<<next, tail, cur, h, left>>)

PStep(t) == PNext(t) \/ PClear(t) \/ PXchg(t) \/ PLink(t) \/ DStart(t) \/ DLoad(t) \/ DClr(t)
            \/ DFast(t) \/ DDoit(t) \/ DFree(t) \/ DLast(t) \/ ELoad(t) \/ ECas(t) \/ ESpin(t)
            \/ EMore(t) \/ EEnd(t) \/ EDone(t)
CStep == CIdle \/ CEnd \/ CHead \/ CNone \/ CNext \/ CAdv \/ CGot \/ CFree \/ STail \/ SClr
         \/ SCas \/ SRestore \/ SNext
AllDone == \A t \in Thr : pc[t] = "done"
Finished == AllDone /\ UNCHANGED <<hist, impl>>
Next == (\E t \in Prods : PStep(t)) \/ CStep \/ Finished
Fairness == (\A t \in Prods : WF_<<hist, impl>>(PStep(t))) /\ WF_<<hist, impl>>(CStep)
Spec == Init /\ [][Next]_<<hist, impl>> /\ Fairness

\* ---- what is checked
Refines == [][A!Next]_hist
NothingLeft == AllDone => /\ delivered = 1..N /\ freed = 1..N /\ cons = 0 /\ fin = {}
                          /\ tail = 0 /\ next[0] = Nil
                          /\ (K = "comb" => tokens = 0)
OneConsumer == Cardinality({t \in Prods : pc[t] \in {"d_load", "d_clr", "d_fast", "d_doit", "d_free",
                            "d_last", "e_load", "e_cas", "e_spin", "e_more"}}) <= 1
Terminates == <>AllDone
=============================================================================
