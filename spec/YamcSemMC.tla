----------------------------- MODULE YamcSemMC -----------------------------
(* YamcSem under a free environment. *)
EXTENDS YamcSem
CONSTANTS N0, MaxN, MaxRel
VARIABLES got, given, rels   \* permits taken and added so far; bound on releases
mcvars == <<st, n, got, given, rels>>
MInit == Init(N0) /\ got = 0 /\ given = 0 /\ rels = 0
Env(t) == \/ \E k \in {"acq", "try"} : Call(t, k, 0, FALSE) /\ UNCHANGED <<got, given, rels>>
          \/ \E past \in BOOLEAN : Call(t, "timed", 0, past) /\ UNCHANGED <<got, given, rels>>
          \/ \E a \in 0..2 : rels + a <= MaxRel /\ Call(t, "rel", a, FALSE) /\ rels' = rels + a /\ UNCHANGED <<got, given>>
          \/ st[t].pc = "call" /\ st[t].k = "timed" /\ ~st[t].exp /\ Tick({t}) /\ UNCHANGED <<got, given, rels>>
Sys(t) == /\ Internal(t) \/ \E r \in BOOLEAN : Return(t, r)
          /\ got' = got + (IF st[t].pc = "call" /\ st'[t].pc = "done" /\ st'[t].res /\ st[t].k # "rel" THEN 1 ELSE 0)
          /\ given' = given + (IF n' > n THEN n' - n ELSE 0)
          /\ UNCHANGED rels
MNext == \E t \in Threads : Env(t) \/ Sys(t)
FairSpec == MInit /\ [][MNext]_mcvars /\ \A t \in Threads : WF_mcvars(Sys(t)) /\ SF_mcvars(Take(t) /\ Sys(t))
Bound == got <= MaxRel + N0
TypeOK == n \in 0..MaxN /\ \A t \in Threads : st[t].pc \in {"idle", "call", "done"}
(* permits are neither lost nor invented *)
Conservation == got + n = N0 + given
(* an operation that must not wait can always finish by itself *)
NeverWaits == \A t \in Threads : st[t].pc = "call" /\ st[t].k \in {"try", "rel"} => ENABLED Internal(t)
(* an acquirer can go exactly if there is a permit *)
BlocksOnlyEmpty == \A t \in Threads : st[t].pc = "call" /\ st[t].k = "acq" => (ENABLED Internal(t) <=> n > 0)
(* a permit does not stay while somebody waits for it *)
Waiting == {t \in Threads : st[t].pc = "call" /\ st[t].k \in {"acq", "timed"}}
HandedOver == (n > 0 /\ Waiting # {}) ~> (n = 0 \/ Waiting = {})
GiveUp == \A t \in Threads : (st[t].pc = "call" /\ st[t].exp) ~> (st[t].pc # "call")
FailsEmpty == [][\A t \in Threads : (st[t].pc = "call" /\ st'[t].pc = "done" /\ ~st'[t].res) => n = 0 /\ n' = 0]_mcvars
OnlyAfterDeadline == [][\A t \in Threads : (st[t].pc = "call" /\ st[t].k = "timed" /\ st'[t].pc = "done" /\ ~st'[t].res) => st[t].exp]_mcvars
=============================================================================
