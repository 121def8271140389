------------------------------- MODULE ModsMC -------------------------------
(* Any sequence of requires and releases over every acyclic graph.           *)
EXTENDS Mods
CONSTANT MaxMan
VARIABLE nreq   \* per module, requires made by its constructor and not released
vars == <<mvars, nreq>>
Rest == UNCHANGED nreq
Init == MInit /\ nreq = [m \in Ids |-> {}]
Building == stack = <<>> /\ Active = {}
Next ==
    \/ /\ Building
       /\ \/ \E m \in Ids, d \in known \cup {-1} : m = Cardinality(known) /\ MNew(m, d) /\ Rest
          \/ \E m \in known, d \in known : d < m /\ MDep(m, d) /\ Rest
    \/ /\ known = Ids
       /\ \/ \E m \in Ids : man[m] < MaxMan /\ stack = <<>> /\ MReq(m) /\ Rest
          \* a constructor may require a module of lower rank
          \/ \E m \in Ids : /\ InTop({"ctor"}) /\ m < Top[2] /\ nreq[Top[2]] = {} /\ man[m] < MaxMan /\ MReq(m)
                            /\ nreq' = [nreq EXCEPT ![Top[2]] = {m}]
          \/ \E m \in Ids : MCtor(m, -1) /\ Rest
          \/ \E m \in Ids : MCtorEnd(m) /\ Rest
          \/ \E m \in Ids : MReqEnd(m) /\ Rest
          \/ \E m \in Ids : stack = <<>> /\ (\A k \in Ids : m \notin nreq[k]) /\ MRel(m) /\ Rest
          \* its destructor then releases it
          \/ \E m \in Ids : /\ InTop({"dtor"}) /\ m \in nreq[Top[2]] /\ MRel(m)
                            /\ nreq' = [nreq EXCEPT ![Top[2]] = {}]
          \/ \E m \in Ids : MDtor(m) /\ Rest
          \/ \E m \in Ids : nreq[m] = {} /\ MDtorEnd(m) /\ Rest
          \/ \E m \in Ids : MRelEnd(m) /\ Rest
          \/ (\A k \in Ids : nreq[k] = {}) /\ MDestroy /\ Rest
          \/ MDestroyEnd /\ Rest
Spec == Init /\ [][Next]_vars
\* a module never runs without what it depends on
DepsLoaded == \A m \in Ids : st[m] # "no" => \A d \in deps[m] : st[d] = "on"
\* between calls, loaded is exactly: required by hand, or needed by a loaded module
Exact == stack = <<>> => \A m \in Ids : st[m] = IF \E k \in Ids : man[k] > 0 /\ m \in {k} \cup Below(k) THEN "on" ELSE "no"
\* a call in progress can always go on
Progress == (stack # <<>>) => ENABLED Next
\* an order of the calls of a method always exists, and depends on the graph only
Ordered == \A k \in {0, 1} : \A m, n \in Ids : ~ (m \in Below(n) /\ n \in Below(m))
=============================================================================
