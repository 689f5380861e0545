---------------------------- MODULE YamcPlatLock ----------------------------
(***************************************************************************)
(* A mutex made of one native primitive of another platform: YamcLock, and *)
(*  - a native call may fail.  Then the operation ends without effect: a    *)
(*    try operation reports FALSE, every other acquisition the error        *)
(*    resource_unavailable_try_again.  Nothing else ends with an error.     *)
(*  - a native timed wait may end within a clock tick before the deadline;  *)
(*    the operation must not report that before the deadline, and need not  *)
(*    look again.                                                           *)
(***************************************************************************)
EXTENDS YamcLock
(* Observable: the native call made for t fails. *)
Fault(t) == /\ st[t].pc \in {"call", "wait"} /\ st[t].k \in {"lock", "try", "timed"}
            /\ st' = [st EXCEPT ![t].pc = "failed"] /\ q' = Without(t) /\ UNCHANGED <<xh, sh>>
FailFalse(t) == /\ st[t].pc = "failed" /\ st[t].k = "try"
                /\ st' = [st EXCEPT ![t] = Idle] /\ UNCHANGED <<q, xh, sh>>
FailError(t) == /\ st[t].pc = "failed" /\ st[t].k # "try"
                /\ st' = [st EXCEPT ![t] = Idle] /\ UNCHANGED <<q, xh, sh>>
(* Internal: the native wait ends without success, maybe a little early. *)
NativeTimeout(t) == /\ st[t].pc = "wait" /\ st[t].k = "timed" /\ ~Grantable(t, st[t].m)
                    /\ st' = [st EXCEPT ![t].pc = "late"] /\ q' = Without(t) /\ UNCHANGED <<xh, sh>>
LateFalse(t) == /\ st[t].pc = "late" /\ st[t].exp
                /\ st' = [st EXCEPT ![t] = Idle] /\ UNCHANGED <<q, xh, sh>>
PInternal(t) == Internal(t) \/ NativeTimeout(t)
PReturn(t, r) == Return(t, r) \/ (~r /\ (FailFalse(t) \/ LateFalse(t)))
PQuiescent(over) == Quiescent(over) /\ \A t \in Threads : st[t].pc # "failed"   \* "late": may sleep until the next clock tick; `over' tells whether it overstays
=============================================================================
