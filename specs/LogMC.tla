-------------------------------- MODULE LogMC --------------------------------
(* Every history of a small tree of loggers.                                  *)
EXTENDS Log
CONSTANTS Lvls, Pars, Nms, MaxB, Stats
VARIABLES ev,       \* last event
          cache     \* what each logger remembers: [lv, ok]; ok: not older than the last change
vars == <<lvars, ev, cache>>
ThePars == <<-1, 0, 1>>
TheDls == <<-1, 3, -1>>
TheNms == <<"a", "b", "d">>
Parent(i) == Pars[i + 1]
Names == {"", "a", "a/b", "a/b/d"}
Init == LInit /\ ev = <<"init">> /\ cache = <<>>
Stale == [i \in DOMAIN cache |-> [lv |-> cache[i].lv, ok |-> FALSE]]
Refresh(i) == LET lv == Level(i) IN (i :> [lv |-> lv, ok |-> TRUE]) @@ cache
Next ==
    \/ \E i \in Ids : \E dl \in {TheDls[i + 1], INHERITS}, st \in Stats :
         /\ i \notin Live /\ LNew(i, Parent(i), Nms[i + 1], dl, FALSE, st)
         /\ ev' = <<"new", i>> /\ UNCHANGED cache
    \/ \E i \in Ids : Kids(i) = {} /\ LWipe(i) /\ ev' = <<"wipe", i>> /\ cache' = Without(cache, {i})
    \/ \E n \in Names, v \in Lvls \cup {UNDEF}, rec \in BOOLEAN :
         /\ (v = UNDEF => ~ rec)
         /\ LSet(n, v, rec, FALSE, IF ByName(n) = {} THEN UNDEF ELSE Level(CHOOSE i \in ByName(n) : TRUE))
         /\ ev' = <<"set", n, v, rec>> /\ cache' = Stale
    \/ \E i \in Live : LLevel(i, Seen(i), 5, Seen(i) >= 5) /\ ev' = <<"level", i>> /\ cache' = Refresh(i)
    \/ \E i \in Live, v \in {4, 6} :
         LET pass == v <= Seen(i)
             h == IF pass /\ (Len(bufs) = 0 \/ (v <= Top.f /\ Top.u)) THEN <<<<Full(i), v, FALSE, <<>>>>>> ELSE <<>>
         IN /\ LLog(i, v, FALSE, <<>>, IF v <= 4 THEN -1 ELSE 0, h)
            /\ ev' = <<"log", i, v>> /\ cache' = Refresh(i)
    \/ \E u \in BOOLEAN, f \in {4, 1000} : Len(bufs) < MaxB /\ LBStart(u, f) /\ ev' = <<"bstart">> /\ UNCHANGED cache
    \/ Len(bufs) > 0 /\ LBStop(Top.m) /\ ev' = <<"bstop">> /\ UNCHANGED cache
View == <<lvars, cache>>
Spec == Init /\ [][Next]_vars
Short == \A b \in 1..Len(bufs) : Len(bufs[b].m) <= 1
\* a level remembered since the last change is the level
Fresh == \A i \in DOMAIN cache : cache[i].ok => cache[i].lv = Level(i)
\* the name of a logger designates it alone
OneName == \A i, k \in Live : Full(i) = Full(k) => i = k
\* setting a level changes nothing outside of the loggers below that name
Local == [][ev'[1] = "set" => \A i \in Live : (\A k \in Ups(i) \cup {Root} : Full(k) # ev'[2]) => Level(i)' = Level(i)]_vars
\* and it is the level of that logger
SetWins == [][(ev'[1] = "set" /\ ev'[3] >= 0) => \A i \in Live : Full(i) = ev'[2] => Level(i)' = ev'[3]]_vars
\* recursively: also of those below without a level of their own
RecWins == [][(ev'[1] = "set" /\ ev'[3] >= 0 /\ ev'[4]) =>
             \A i \in Live : (/\ \E k \in Ups(i) \cup {Root} : Full(k) = ev'[2]
                              /\ \A k \in Ups(i) : Set(k) => Full(k) = ev'[2])
                             => Level(i)' = ev'[3]]_vars
\* a new logger or one that goes changes no other level
NewLocal == [][ev'[1] \in {"new", "wipe", "level", "log", "bstart", "bstop"} => \A i \in Live \cap DOMAIN lg' : Level(i)' = Level(i)]_vars
\* what is logged under a buffer without handler never reaches it
Quiet == \A b \in 1..Len(bufs) : \A c \in 1..b : bufs[b].u => bufs[c].u
=============================================================================
