---------------------------- MODULE YamcLockMC ----------------------------
(* The lock specification with a free environment, for exhaustive checking. *)
EXTENDS YamcLock, TLC

CONSTANTS MaxNest, Shared, Timed

MCCalls(t) ==
  \/ /\ xh[t] = 0 /\ sh[t] = 0
     /\ \E m \in (IF Shared THEN {"X", "S"} ELSE {"X"}) :
          \/ Call(t, "lock", m, FALSE) \/ Call(t, "try", m, FALSE)
          \/ Timed /\ \E p \in BOOLEAN : Call(t, "timed", m, p)
  \/ /\ Recursive /\ xh[t] > 0 /\ xh[t] < MaxNest
     /\ \E k \in {"lock", "try"}, w \in 1..(MaxNest - xh[t]) : CallN(t, k, "X", FALSE, w)

MCUnlock(t) == \/ \E w \in 1..xh[t] : CallN(t, "unlock", "X", FALSE, w)
               \/ sh[t] > 0 /\ Call(t, "unlock", "S", FALSE)
MCReturn(t) == Return(t, st[t].res)
MCTick(t) == st[t].pc \in {"call", "wait"} /\ st[t].k = "timed" /\ ~st[t].exp /\ Tick({t})

MCNext == \E t \in Threads : MCCalls(t) \/ MCUnlock(t) \/ Internal(t) \/ MCReturn(t) \/ MCTick(t)
MCInit == Init
MCSpec == MCInit /\ [][MCNext]_lockvars

(* The mutex takes its steps, and owners eventually release. *)
Fairness == \A t \in Threads : WF_lockvars(Internal(t)) /\ WF_lockvars(MCReturn(t)) /\ WF_lockvars(MCUnlock(t))
FairSpec == MCSpec /\ Fairness

-----------------------------------------------------------------------------
TypeOK ==
  /\ st \in [Threads -> [pc : {"idle", "call", "wait", "done"}, k : {"", "lock", "try", "timed", "unlock"},
                         m : {"", "X", "S"}, exp : BOOLEAN, res : BOOLEAN, w : 1..MaxNest]]
  /\ xh \in [Threads -> 0..MaxNest] /\ sh \in [Threads -> 0..1]
  /\ \A t \in Threads : (st[t].pc = "wait") <=> InQ(t)
  /\ \A i, j \in 1..Len(q) : q[i] = q[j] => i = j

(* C01, C07 *)
Exclusion == Cardinality(XOwners) <= 1 /\ (XOwners # {} => SOwners = {})

Granted(t) == st[t].pc = "wait" /\ st'[t].pc = "done" /\ st'[t].res
Gained(t) == xh'[t] + sh'[t] > xh[t] + sh[t]

(* C02: the owner's nested requests succeed at once; only the owner changes the depth *)
NestExact == [][\A t \in Threads :
                 /\ (st[t].pc = "call" /\ st[t].k # "unlock" /\ Nested(t) /\ st'[t].pc # "call") => (st'[t].pc = "done" /\ st'[t].res /\ xh'[t] = xh[t] + st[t].w)
                 /\ xh'[t] # xh[t] => st[t].pc \in {"call", "wait"} /\ st'[t].pc = "done"]_lockvars

(* C03, C07, C08: nobody waits forever for what it could have *)
NoLostWakeup == \A t \in Threads :
   (st[t].pc = "wait" /\ Grantable(t, st[t].m)) ~> ~(st[t].pc = "wait" /\ Grantable(t, st[t].m))
(* C06, C09, C10: fair policies starve nobody *)
StarvationFree == \A t \in Threads : (st[t].pc = "wait") ~> (st[t].pc # "wait")

(* C04: a try operation leaves the call state by itself: it is never disabled *)
TryNeverBlocks == \A t \in Threads : (st[t].pc = "call" /\ st[t].k \in {"try", "unlock"}) => ENABLED Internal(t)

(* C05, C24: giving up needs an expired deadline, changes no ownership and keeps the others' order *)
GiveUp == [][\A t \in Threads : (st[t].pc = "wait" /\ st'[t].pc = "done" /\ ~st'[t].res) =>
               (st[t].exp /\ ~Grantable(t, st[t].m) /\ xh' = xh /\ sh' = sh /\ q' = Without(t))]_lockvars
GrantableStaysIfOthersGiveUp ==
  [][\A t \in Threads : (\E u \in Threads \ {t} : st[u].pc = "wait" /\ st'[u].pc = "done" /\ ~st'[u].res)
        => (st[t].pc = "wait" /\ Grantable(t, st[t].m) => st'[t].pc = "wait" /\ Grantable(t, st[t].m)')]_lockvars

(* C06 *)
Fifo == [][\A t \in Threads : Granted(t) => Pos(t) = 1]_lockvars
NoBarging == [][\A t \in Threads : (Gained(t) /\ ~Nested(t) /\ st[t].pc = "call") => q = <<>>]_lockvars
(* C08 *)
ReaderNeverDelayed == \A t \in Threads : (st[t].pc \in {"wait", "call"} /\ st[t].k # "unlock" /\ st[t].m = "S" /\ XOwners = {}) => Grantable(t, "S")
WriterFirst == [][\A t \in Threads : (Gained(t) /\ st[t].m = "S") => XWaiting = {}]_lockvars
ReadersAfterWriters == \A t \in Threads : (st[t].pc = "wait" /\ st[t].m = "S" /\ XOwners = {} /\ XWaiting = {}) => Grantable(t, "S")
(* C09 *)
TaskOrder == [][\A t \in Threads : Gained(t) /\ ~Nested(t) =>
                  \A u \in Before(t) : st[u].m = "S" /\ st[t].m = "S"]_lockvars
(* C09, C10: order of the line *)
Kept(Mode) == \A t, u \in Threads : (InQ(t) /\ InQ(u) /\ InQ(t)' /\ InQ(u)' /\ st[t].m \in Mode /\ st[u].m \in Mode /\ Pos(t) < Pos(u)) => Pos(t)' < Pos(u)'
LineKept == [][Kept({"X", "S"})]_lockvars
WritersKept == [][Kept({"X"}) /\ Kept({"S"})]_lockvars
NewcomersLast == [][\A t \in Threads : (~InQ(t) /\ InQ(t)') => Pos(t)' = Len(q')]_lockvars
(* C10: a line is reordered only by a leaving writer and only if a reader is oldest *)
PhaseChange == [][~Kept({"X", "S"}) => /\ \E t \in Threads : xh[t] = 1 /\ xh'[t] = 0
                                        /\ st[Head(q)].m = "S"]_lockvars
=============================================================================
