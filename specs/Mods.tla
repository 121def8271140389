-------------------------------- MODULE Mods --------------------------------
(* Modules: loaded with their dependencies, released when nobody needs them, *)
(* and methods run on the loaded ones in the order of the dependencies.      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Ids
VARIABLES known,   \* modules registered
          deps,    \* set of direct dependencies
          st,      \* "no", "ctor", "on" or "dtor"
          man,     \* times required by hand
          impl,    \* methods implemented
          arg,     \* argument provided
          stack    \* calls in progress
mvars == <<known, deps, st, man, impl, arg, stack>>

Methods == 0..9
DepsBefore(k) == k \in {0, 2, 4, 6, 8, 9}
HasArg(k) == k \in {2, 3, 4, 5, 6}

MInit == /\ known = {} /\ deps = [m \in Ids |-> {}] /\ st = [m \in Ids |-> "no"]
         /\ man = [m \in Ids |-> 0] /\ impl = [m \in Ids |-> {}] /\ arg = [m \in Ids |-> -1]
         /\ stack = <<>>

Grow(d, S) == S \cup UNION {d[x] : x \in S}
Close(d, S) == LET RECURSIVE F(_)
                   F(T) == IF Grow(d, T) = T THEN T ELSE F(Grow(d, T))
               IN F(S)
\* everything m depends on, directly or not
Below(m) == Close(deps, deps[m])
Active == {m \in Ids : st[m] # "no"}
Needed(m) == man[m] > 0 \/ \E k \in Active : m \in deps[k]
Top == stack[Len(stack)]
Push(f) == stack' = Append(stack, f)
Pop == stack' = SubSeq(stack, 1, Len(stack) - 1)
InTop(kinds) == Len(stack) > 0 /\ Top[1] \in kinds

\* --- building ---
MNew(m, d) == /\ m \notin known /\ known' = known \cup {m}
              /\ deps' = [deps EXCEPT ![m] = IF d < 0 THEN {} ELSE {d}]
              /\ UNCHANGED <<st, man, impl, arg, stack>>
MDep(m, d) == /\ st[m] = "no" /\ m # d /\ m \notin Below(d)
              /\ deps' = [deps EXCEPT ![m] = @ \cup {d}]
              /\ UNCHANGED <<known, st, man, impl, arg, stack>>
MImpl(m, k) == /\ impl' = [impl EXCEPT ![m] = @ \cup {k}]
               /\ UNCHANGED <<known, deps, st, man, arg, stack>>
MArg(m, a, r) == /\ r = a /\ arg' = [arg EXCEPT ![m] = a]
                 /\ UNCHANGED <<known, deps, st, man, impl, stack>>

\* --- requiring ---
MReq(m) == /\ m \in known /\ st[m] \in {"no", "on"}
           /\ Push(<<"req", m>>)
           /\ UNCHANGED <<known, deps, st, man, impl, arg>>
\* a constructor runs once its dependencies are loaded, and only when wanted
MCtor(m, a) == /\ InTop({"req"}) /\ m \in {Top[2]} \cup Below(Top[2])
               /\ st[m] = "no" /\ \A d \in deps[m] : st[d] = "on"
               /\ a = arg[m]
               /\ st' = [st EXCEPT ![m] = "ctor"]
               /\ Push(<<"ctor", m>>)
               /\ UNCHANGED <<known, deps, man, impl, arg>>
MCtorEnd(m) == /\ InTop({"ctor"}) /\ Top[2] = m
               /\ st' = [st EXCEPT ![m] = "on"] /\ Pop
               /\ UNCHANGED <<known, deps, man, impl, arg>>
MReqEnd(m) == /\ InTop({"req"}) /\ Top[2] = m /\ st[m] = "on"
              /\ man' = [man EXCEPT ![m] = @ + 1] /\ Pop
              /\ UNCHANGED <<known, deps, st, impl, arg>>

\* --- releasing ---
MRel(m) == /\ m \in known /\ st[m] = "on" /\ man[m] > 0
           /\ man' = [man EXCEPT ![m] = @ - 1]
           /\ Push(<<"rel", m>>)
           /\ UNCHANGED <<known, deps, st, impl, arg>>
MDtor(m) == /\ InTop({"rel", "destroy"}) /\ st[m] = "on" /\ ~ Needed(m)
            /\ st' = [st EXCEPT ![m] = "dtor"]
            /\ Push(<<"dtor", m>>)
            /\ UNCHANGED <<known, deps, man, impl, arg>>
MDtorEnd(m) == /\ InTop({"dtor"}) /\ Top[2] = m
               /\ st' = [st EXCEPT ![m] = "no"] /\ Pop
               /\ UNCHANGED <<known, deps, man, impl, arg>>
\* once the outermost call is over, nothing that nobody needs stays loaded
\* (within another release, the dependencies of what is being shut down are
\* still held until their turn comes)
Unneeded == {m \in Ids : st[m] = "on" /\ ~ Needed(m)}
MRelEnd(m) == /\ InTop({"rel"}) /\ Top[2] = m
              /\ IF Len(stack) = 1 THEN Unneeded = {}
                 ELSE m \notin Unneeded \/ \E i \in 1..Len(stack) - 1 : stack[i][1] \in {"rel", "destroy"}
              /\ Pop
              /\ UNCHANGED <<known, deps, st, man, impl, arg>>
MDestroy == /\ stack = <<>> /\ man' = [m \in Ids |-> 0]
            /\ Push(<<"destroy", 0>>)
            /\ UNCHANGED <<known, deps, st, impl, arg>>
MDestroyEnd == /\ InTop({"destroy"}) /\ Active = {} /\ Pop
               /\ UNCHANGED <<known, deps, st, man, impl, arg>>

\* --- observations ---
Range(s) == {s[i] : i \in 1..Len(s)}
Busy(kinds) == \E i \in 1..Len(stack) : stack[i][1] \in kinds
MState(on, ini, shu) ==
    /\ Range(on) = {m \in Ids : st[m] = "on"}
    /\ {m \in Ids : st[m] = "ctor"} \subseteq Range(ini)
    /\ Range(ini) \cap {m \in Ids : st[m] \in {"on", "dtor"}} = {}
    /\ (~ Busy({"req"}) => ini = <<>>)
    /\ {m \in Ids : st[m] = "dtor"} \subseteq Range(shu)
    /\ Range(shu) \cap {m \in Ids : st[m] \in {"on", "ctor"}} = {}
    /\ (~ Busy({"rel", "destroy"}) => shu = <<>>)
    /\ UNCHANGED mvars
\* the calls of one method: each loaded module that implements it, once, in order
\* (a module whose destructor is running may be called or not)
Calls(k, c, a) ==
    LET who == {c[i][2] : i \in 1..Len(c)}
        With(s) == {m \in Ids : st[m] \in s /\ k \in impl[m]}
    IN /\ \A i \in 1..Len(c) : c[i][1] = k /\ (HasArg(k) => c[i][3] = a)
       /\ With({"on"}) \subseteq who /\ who \subseteq With({"on", "dtor"})
       /\ Len(c) = Cardinality(who)
       /\ \A i, j \in 1..Len(c) : i < j => IF DepsBefore(k) THEN c[j][2] \notin Below(c[i][2]) ELSE c[i][2] \notin Below(c[j][2])
MRun(k, a, c) == Calls(k, c, a) /\ UNCHANGED mvars
Sel(c, k) == LET RECURSIVE F(_)
                 F(i) == IF i > Len(c) THEN <<>> ELSE (IF c[i][1] = k THEN <<c[i]>> ELSE <<>>) \o F(i + 1)
             IN F(1)
\* around a fork: prepare, then the parent's and the child's callbacks
MFork(ifork, c, child) ==
    /\ c = Sel(c, 7) \o Sel(c, 8)
    /\ child = Sel(child, 7) \o Sel(child, 9)
    /\ Calls(7, Sel(c, 7), 0) /\ Sel(child, 7) = Sel(c, 7)
    /\ Calls(8, Sel(c, 8), 0) /\ Calls(9, Sel(child, 9), 0)
    /\ \A i \in 1..Len(c) : c[i][1] = 8 => c[i][3] = IF ifork THEN 1 ELSE -1
    /\ UNCHANGED mvars
\* r: a module of the set that another one (or itself) depends on
Clash(S) == {m \in S : \E k \in S : m \in Below(k)}
MColl(t, r) == /\ (IF Clash(Range(t)) = {} THEN r = -1 ELSE r \in Clash(Range(t)))
               /\ UNCHANGED mvars
MDump(mods, ds) == /\ Range(mods) = {<<m, IF st[m] = "on" THEN 1 ELSE 0>> : m \in known}
                   /\ Len(mods) = Cardinality(known)
                   /\ Range(ds) = {<<m, d>> \in known \X known : d \in deps[m]}
                   /\ UNCHANGED mvars
=============================================================================
