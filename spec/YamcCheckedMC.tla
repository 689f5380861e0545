--------------------------- MODULE YamcCheckedMC ---------------------------
(* YamcChecked under a free environment, misuse included. *)
EXTENDS YamcChecked, TLC
CONSTANTS Pols, WithMisuse, Timed, MaxNest
Conf1 == <<[rec |-> FALSE, pol |-> "x"], [rec |-> FALSE, pol |-> "x"], [rec |-> FALSE, pol |-> "x"]>>
Conf2 == <<[rec |-> FALSE, pol |-> "reader"], [rec |-> TRUE, pol |-> "x"]>>
Conf3 == <<[rec |-> FALSE, pol |-> "writer"], [rec |-> FALSE, pol |-> "x"]>>
MInit == /\ conf = [o \in Objects |-> Pols[o]]
         /\ st = [t \in Threads |-> CIdle]
         /\ xo = [o \in Objects |-> [t \in Threads |-> 0]]
         /\ so = [o \in Objects |-> {}] /\ alive = Objects
May(t, o, k, m) ==
  /\ m = "S" => conf[o].pol # "x"
  /\ WithMisuse \/ (IF k = "unlock" THEN (IF m = "X" THEN xo[o][t] > 0 ELSE t \in so[o]) ELSE ~Owns(t, o) \/ conf[o].rec)
  /\ (k # "unlock") => xo[o][t] < MaxNest
Env(t) == \/ \E o \in alive, k \in {"lock", "try", "unlock"} \cup (IF Timed THEN {"timed"} ELSE {}), m \in {"X", "S"} : May(t, o, k, m) /\ Call(t, o, k, m, FALSE)
          \/ Pending(t) /\ st[t].k = "timed" /\ ~st[t].exp /\ Tick({t})
(* A detecting implementation: a request waits only if that closes no cycle.
   Requests that were woken because they had become grantable, and are overtaken
   by a writer that has priority, look again. *)
Overtaken(u, t) == u # t /\ st[u].pc = "wait" /\ st[u].k = "lock" /\ st[u].m = "S" /\ st[t].m = "X" /\ st[u].o = st[t].o /\ Grantable(u)
MCWait(t) ==
  /\ MayWait(t)
  /\ st' = [u \in Threads |-> IF u = t THEN [st[t] EXCEPT !.pc = "wait"] ELSE IF Overtaken(u, t) THEN [st[u] EXCEPT !.pc = "call"] ELSE st[u]]
  /\ UNCHANGED <<conf, xo, so, alive>>
Sys(t) == \/ Detected(t) \/ Reenter(t) \/ Grant(t) \/ Fail(t) \/ Report(t) \/ Release(t)
          \/ (MCWait(t) /\ ~(Detect /\ st[t].k = "lock" /\ ClosesCycle(t, Waits)))
          \/ \E r \in 0..3 : Return(t, r)
MNext == \E t \in Threads : Env(t) \/ Sys(t)
MSpec == MInit /\ [][MNext]_chkvars
TypeOK == /\ \A t \in Threads : st[t].res \in 0..3
          /\ \A o \in Objects : Cardinality(XOwners(o)) <= 1 /\ (XOwners(o) # {} => so[o] = {})
(* detection keeps the wait-for graph free of cycles *)
NoDeadlock == \A t \in Waits : ~ClosesCycle(t, Waits)
(* ... so that somebody can always make progress: some owner does not wait, or
   some request can be granted *)
SomebodyCanGo == Waits # {} => \/ \E o \in Objects : \E t \in Owners(o) : t \notin Waits
                               \/ \E t \in Threads : Pending(t) /\ st[t].k \in Acquiring /\ Grantable(t)
MisuseChangesNothing == [][\A t \in Threads : (st[t].pc = "call" /\ Misuse(t) /\ st'[t].pc = "done") => (st'[t].res = MisuseCode(t) /\ xo' = xo /\ so' = so)]_chkvars
CorrectUseNotReported == [][\A t \in Threads : (st'[t].pc = "done" /\ st[t].pc # "done" /\ st'[t].res >= 2) => (Misuse(t) \/ (st[t].k = "lock" /\ ~Grantable(t) /\ ClosesCycle(t, Waits)))]_chkvars
ReportChangesNothing == [][\A t \in Threads : (st'[t].pc = "done" /\ st[t].pc # "done" /\ st'[t].res >= 2) => (xo' = xo /\ so' = so)]_chkvars
=============================================================================
