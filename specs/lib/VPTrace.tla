------------------------------ MODULE VPTrace ------------------------------
(* Shared by the trace specifications: the recorded events of one run of the *)
(* real code, one record per line.                                           *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
LOCAL INSTANCE TLC

Trace == ndJsonDeserialize(IOEnv.VP_TRACE)

(* Every line was consumed: one state per line plus the initial one. *)
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
(* For specifications with steps that are not logged: the longest prefix of  *)
(* the trace that was followed (constraint VPProgress(l)).                   *)
ASSUME TLCSet(1, 0)
VPProgress(l) == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
TraceFollowed == IF TLCGet(1) = Len(Trace) + 1 THEN TRUE
                 ELSE PrintT("VPLINE " \o ToString(TLCGet(1))) /\ FALSE
=============================================================================
