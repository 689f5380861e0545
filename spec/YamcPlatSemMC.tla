---------------------------- MODULE YamcPlatSemMC ----------------------------
EXTENDS YamcPlatSem
CONSTANTS N0, MaxRel, MaxFaults
VARIABLES got, given, rels, faults
mvars == <<st, n, cap, got, given, rels, faults>>
CONSTANT Cap
PInit == Init(N0) /\ cap = Cap /\ got = 0 /\ given = 0 /\ rels = 0 /\ faults = 0
Env(t) == /\ UNCHANGED <<cap, got, given, faults>>
          /\ \/ \E k \in {"acq", "try", "timed"}, past \in BOOLEAN : (past => k = "timed") /\ Call(t, k, 0, past) /\ UNCHANGED rels
             \/ \E a \in 0..2 : rels + a <= MaxRel /\ Call(t, "rel", a, FALSE) /\ rels' = rels + a
Exp(t) == st[t].k = "timed" /\ st[t].pc # "idle" /\ ~st[t].exp /\ Tick({t}) /\ UNCHANGED <<cap, got, given, rels, faults>>
Sys(t) == /\ PInternal(t) \/ FailError(t) \/ \E r \in BOOLEAN : PReturn(t, r)
          /\ got' = got + (IF st[t].pc = "call" /\ st'[t].pc = "done" /\ st'[t].res /\ st[t].k # "rel" THEN 1 ELSE 0)
          /\ given' = given + (IF n' > n THEN n' - n ELSE 0) /\ UNCHANGED <<cap, rels, faults>>
Flt(t) == faults < MaxFaults /\ Fault(t) /\ faults' = faults + 1 /\ UNCHANGED <<cap, got, given, rels>>
PNext == \E t \in Threads : (Env(t) \/ Exp(t) \/ Sys(t) \/ Flt(t))
PSpec == PInit /\ [][PNext]_mvars /\ \A t \in Threads : WF_mvars(Sys(t)) /\ WF_mvars(Exp(t))
Bound == got <= MaxRel + N0
Conservation == got + n = N0 + given
FaultNoEffect == [][\A t \in Threads : st'[t].pc = "failed" /\ st[t].pc # "failed" => n' = n]_mvars
TimedEnds == \A t \in Threads : (st[t].pc # "idle" /\ st[t].k = "timed") ~> (st[t].pc = "idle")
=============================================================================
