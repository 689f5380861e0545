--------------------------- MODULE YamcPlatLockMC ---------------------------
(* YamcPlatLock under a free environment with at most MaxFaults failures. *)
EXTENDS YamcPlatLock
CONSTANTS MaxNest, Shared, MaxFaults
VARIABLE faults
pvars == <<st, q, xh, sh, faults>>
PInit == Init /\ faults = 0
Calls(t) == \/ /\ xh[t] = 0 /\ sh[t] = 0
               /\ \E m \in (IF Shared THEN {"X", "S"} ELSE {"X"}), k \in {"lock", "try", "timed"}, p \in BOOLEAN : (p => k = "timed") /\ Call(t, k, m, p)
            \/ Recursive /\ xh[t] > 0 /\ xh[t] < MaxNest /\ \E k \in {"lock", "try"} : Call(t, k, "X", FALSE)
Unlock(t) == (xh[t] > 0 /\ Call(t, "unlock", "X", FALSE)) \/ (sh[t] > 0 /\ Call(t, "unlock", "S", FALSE))
Sys(t) == PInternal(t) \/ FailError(t) \/ \E r \in BOOLEAN : PReturn(t, r)
Exp(t) == st[t].k = "timed" /\ st[t].pc # "idle" /\ ~st[t].exp /\ Tick({t})
PNext == \E t \in Threads : ((Calls(t) \/ Unlock(t) \/ Sys(t) \/ Exp(t)) /\ UNCHANGED faults) \/ (faults < MaxFaults /\ Fault(t) /\ faults' = faults + 1)
PSpec == PInit /\ [][PNext]_pvars /\ \A t \in Threads : WF_pvars(Sys(t) /\ UNCHANGED faults) /\ WF_pvars(Unlock(t) /\ UNCHANGED faults) /\ WF_pvars(Exp(t) /\ UNCHANGED faults)
Exclusion == Cardinality(XOwners) <= 1 /\ (XOwners # {} => SOwners = {})
(* a failed operation changes no ownership *)
FaultNoEffect == [][\A t \in Threads : (st'[t].pc = "failed" \/ st[t].pc = "failed") => xh'[t] = xh[t] /\ sh'[t] = sh[t]]_pvars
(* no failure, however unlucky, keeps somebody waiting for a free mutex; a timed operation ends *)
NoLostWakeup == \A t \in Threads : (st[t].pc = "wait" /\ Grantable(t, st[t].m)) ~> ~(st[t].pc = "wait" /\ Grantable(t, st[t].m))
TimedEnds == \A t \in Threads : (st[t].pc # "idle" /\ st[t].k = "timed") ~> (st[t].pc = "idle")
=============================================================================
