------------------------------- MODULE Pool -------------------------------
(* Memory pools: what a user of a stack, ring, fifo or plain pool relies on.  *)
(* An allocation is an interval of addresses that no other live allocation    *)
(* meets, aligned as asked, whose content is only changed by its owner; it is *)
(* live until it is freed, or until its frame is popped, released or rewound. *)
(* Contents are sequences of runs <<byte, length>>; addresses are pairs       *)
(* <<high, low>> of 24-bit halves.                                            *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES kind,    (* pool -> "stack" | "ring" | "fifo" | "libc", or "dead" *)
          frames,  (* pool -> sequence of open frames (stack) or set (ring) *)
          cur,     (* ring pool -> its active frame, or 0 *)
          live,    (* allocation -> record *)
          ckpts,   (* checkpoint -> record *)
          ev
vars == <<kind, frames, cur, live, ckpts, ev>>
view == <<kind, frames, cur, live, ckpts>>
Empty == [x \in {} |-> 0]
Del(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Sum(r) == LET F[i \in 0..Len(r)] == IF i = 0 THEN 0 ELSE F[i - 1] + r[i][2] IN F[Len(r)]
RECURSIVE Norm(_)
Norm(r) == IF r = <<>> THEN <<>>
           ELSE IF r[1][2] = 0 THEN Norm(Tail(r))
           ELSE IF Len(r) = 1 THEN r
           ELSE IF r[2][2] = 0 \/ r[1][1] = r[2][1]
                THEN Norm(<< <<r[1][1], r[1][2] + r[2][2]>> >> \o SubSeq(r, 3, Len(r)))
           ELSE <<r[1]>> \o Norm(Tail(r))
RECURSIVE Take(_, _)
Take(r, n) == IF n <= 0 \/ r = <<>> THEN <<>>
              ELSE IF r[1][2] >= n THEN << <<r[1][1], n>> >>
              ELSE <<r[1]>> \o Take(Tail(r), n - r[1][2])
HalfBits == 16777216
Before(h1, l1, h2, l2) == h1 < h2 \/ (h1 = h2 /\ l1 <= l2)
EndH(h, l, n) == h + ((l + n) \div HalfBits)
EndL(h, l, n) == (l + n) % HalfBits
Disjoint(a, h, l, n) ==
    \/ n = 0
    \/ a.size = 0
    \/ Before(EndH(a.h, a.l, a.size), EndL(a.h, a.l, a.size), h, l)
    \/ Before(EndH(h, l, n), EndL(h, l, n), a.h, a.l)
(* off, bn: where it starts in the block of the system it is cut from *)
Fits(id, h, l, n, al, off, bn) ==
    TRUE = (/\ n > 0 => /\ l % al = 0
                        /\ off >= 0
                        /\ off + n <= bn
            /\ \A o \in DOMAIN live \ {id} : Disjoint(live[o], h, l, n))

Init == /\ kind = Empty /\ frames = Empty /\ cur = Empty /\ live = Empty
        /\ ckpts = Empty /\ ev = [op |-> "init"]
NewPool(p, k) ==
    /\ p \notin DOMAIN kind
    /\ kind' = Put(kind, p, k)
    /\ frames' = Put(frames, p, <<>>)
    /\ cur' = Put(cur, p, 0)
    /\ UNCHANGED <<live, ckpts>>
Frame(p) == CASE kind[p] = "stack" -> frames[p][Len(frames[p])]
              [] kind[p] = "ring" -> cur[p]
              [] OTHER -> 0
CanAlloc(p) == /\ p \in DOMAIN kind
               /\ CASE kind[p] = "stack" -> frames[p] # <<>>
                    [] kind[p] = "ring" -> cur[p] # 0
                    [] kind[p] \in {"dead", "dying"} -> FALSE
                    [] OTHER -> TRUE
(* zero: the content asked for is zeros, and c is what was found; otherwise   *)
(* the owner wrote the byte f everywhere                                      *)
Alloc(p, id, n, al, zero, c, f, h, l, off, bn) ==
    /\ CanAlloc(p)
    /\ id \notin DOMAIN live
    /\ Fits(id, h, l, n, al, off, bn)
    /\ zero => c = Norm(<< <<0, n>> >>)
    /\ live' = Put(live, id, [pool |-> p, frame |-> Frame(p), h |-> h, l |-> l, size |-> n,
                              al |-> al, runs |-> IF zero THEN c ELSE Norm(<< <<f, n>> >>)])
    /\ UNCHANGED <<kind, frames, cur, ckpts>>
Realloc(id, n, zero, c, f, h, l, off, bn) ==
    /\ id \in DOMAIN live
    /\ \E a \in {live[id]} :
       /\ CanAlloc(a.pool)
       /\ Frame(a.pool) = a.frame
       /\ Fits(id, h, l, n, a.al, off, bn)
       /\ \E keep \in {Take(a.runs, n)} :
          LET more == IF n > a.size THEN n - a.size ELSE 0
              want == IF zero THEN Norm(keep \o << <<0, more>> >>) ELSE Norm(keep)
          IN /\ c = want
             /\ live' = [live EXCEPT ![id].size = n, ![id].h = h, ![id].l = l,
                                     ![id].runs = IF zero THEN c ELSE Norm(keep \o << <<f, more>> >>)]
    /\ UNCHANGED <<kind, frames, cur, ckpts>>
Write(id, f) ==
    /\ id \in DOMAIN live
    /\ live' = [live EXCEPT ![id].runs = Norm(<< <<f, live[id].size>> >>)]
    /\ UNCHANGED <<kind, frames, cur, ckpts>>
Read(id, c) ==
    /\ id \in DOMAIN live
    /\ c = live[id].runs
    /\ UNCHANGED <<kind, frames, cur, live, ckpts>>
Free(id, c) ==
    /\ id \in DOMAIN live
    /\ c = live[id].runs
    /\ live' = Del(live, {id})
    /\ UNCHANGED <<kind, frames, cur, ckpts>>
InFrames(F) == {i \in DOMAIN live : live[i].frame \in F}
(* stack *)
Push(p, f) ==
    /\ kind[p] = "stack"
    /\ frames' = [frames EXCEPT ![p] = Append(@, f)]
    /\ UNCHANGED <<kind, cur, live, ckpts>>
Pop(p, same) ==
    /\ kind[p] = "stack" /\ frames[p] # <<>>
    /\ same            (* the cookie given back is that of the last push *)
    /\ live' = Del(live, InFrames({frames[p][Len(frames[p])]}))
    /\ frames' = [frames EXCEPT ![p] = SubSeq(@, 1, Len(@) - 1)]
    /\ UNCHANGED <<kind, cur, ckpts>>
Trim(p) == /\ p \in DOMAIN kind /\ UNCHANGED <<kind, frames, cur, live, ckpts>>
AtTop(p, r) == /\ r = (frames[p] = <<>>) /\ UNCHANGED <<kind, frames, cur, live, ckpts>>
(* ring *)
NewFrame(p, f) ==
    /\ kind[p] = "ring" /\ cur[p] = 0
    /\ cur' = [cur EXCEPT ![p] = f]
    /\ frames' = [frames EXCEPT ![p] = Append(@, f)]
    /\ UNCHANGED <<kind, live, ckpts>>
Seal(p, same) ==
    /\ kind[p] = "ring" /\ cur[p] # 0
    /\ same            (* the cookie is that of the frame *)
    /\ cur' = [cur EXCEPT ![p] = 0]
    /\ UNCHANGED <<kind, frames, live, ckpts>>
Range(s) == {s[i] : i \in DOMAIN s}
Release(f) ==
    \E p \in DOMAIN frames :
      /\ kind[p] \in {"ring", "dying"}
      /\ f \in Range(frames[p])
      /\ live' = Del(live, InFrames({f}))
      /\ \E fs \in {SelectSeq(frames[p], LAMBDA x : x # f)} :
         /\ frames' = [frames EXCEPT ![p] = fs]
         /\ kind' = [kind EXCEPT ![p] = IF @ = "dying" /\ fs = <<>> THEN "dead" ELSE @]
      /\ cur' = [cur EXCEPT ![p] = IF @ = f THEN 0 ELSE @]
      /\ ckpts' = Del(ckpts, {c \in DOMAIN ckpts : ckpts[c].frame = f})
(* a checkpoint seals the active frame; rewinding releases every frame opened *)
(* since, with the allocations made since, and makes the frame active again   *)
Checkpoint(p, k) ==
    /\ kind[p] = "ring" /\ cur[p] # 0
    /\ ckpts' = Put(ckpts, k, [pool |-> p, frame |-> cur[p], live |-> DOMAIN live])
    /\ cur' = [cur EXCEPT ![p] = 0]
    /\ UNCHANGED <<kind, frames, live>>
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Rewind(k) ==
    /\ k \in DOMAIN ckpts
    /\ \E c \in {ckpts[k]} : \E i \in {Pos(frames[c.pool], c.frame)} :
       LET gone == {frames[c.pool][j] : j \in (i + 1)..Len(frames[c.pool])}
       IN /\ frames' = [frames EXCEPT ![c.pool] = SubSeq(@, 1, i)]
          /\ live' = Del(live, InFrames(gone))
          /\ cur' = [cur EXCEPT ![c.pool] = c.frame]
          /\ ckpts' = Del(ckpts, {x \in DOMAIN ckpts :
                                    \/ x = k
                                    \/ ckpts[x].frame \in gone})
    /\ UNCHANGED kind
(* deletion: a ring or fifo pool in use lives until its last frame or block   *)
InPool(p) == {i \in DOMAIN live : live[i].pool = p}
Delete(p) ==
    /\ kind[p] \in {"ring", "fifo", "stack"}
    /\ kind' = [kind EXCEPT ![p] = IF @ = "stack" THEN "dead"
                                   ELSE IF @ = "ring" THEN (IF frames[p] = <<>> THEN "dead" ELSE "dying")
                                   ELSE "dead"]
    /\ cur' = [cur EXCEPT ![p] = 0]
    /\ frames' = [frames EXCEPT ![p] = IF kind[p] = "stack" THEN <<>> ELSE @]
    /\ live' = IF kind[p] = "stack" THEN Del(live, InPool(p)) ELSE live
    /\ UNCHANGED ckpts
RECURSIVE SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN live[x].size + SumOf(S \ {x})
Stats(p, used, alloc) ==
    /\ used >= SumOf(InPool(p))
    /\ alloc >= used
    /\ (InPool(p) = {}) => used = 0
    /\ UNCHANGED <<kind, frames, cur, live, ckpts>>
Footprint(p, n) ==
    /\ n >= SumOf(InPool(p))
    /\ UNCHANGED <<kind, frames, cur, live, ckpts>>
(* memory obtained from the system and not given back, when all is deleted    *)
Leaks(n) ==
    /\ \A p \in DOMAIN kind : kind[p] \in {"dead", "libc"}
    /\ live = Empty
    /\ n = 0
    /\ kind' = Empty /\ frames' = Empty /\ cur' = Empty /\ ckpts' = Empty /\ live' = live
---------------------------------------------------------------------------
NoOverlap == \A a, b \in DOMAIN live :
    a = b \/ Disjoint(live[a], live[b].h, live[b].l, live[b].size)
Sized == \A a \in DOMAIN live : Sum(live[a].runs) = live[a].size
InOpenFrame == \A a \in DOMAIN live :
    \/ kind[live[a].pool] \in {"fifo", "libc", "dead"}
    \/ live[a].frame \in Range(frames[live[a].pool])
ActiveOpen == \A p \in DOMAIN cur : cur[p] = 0 \/ cur[p] \in Range(frames[p])
CkptOpen == \A k \in DOMAIN ckpts : ckpts[k].frame \in Range(frames[ckpts[k].pool])
===========================================================================
