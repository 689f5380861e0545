---------------------------- MODULE YamcLatchMC ----------------------------
EXTENDS YamcLatch
CONSTANTS C0
VARIABLE todo      \* arrivals that may still be started
mcvars == <<st, c, todo>>
MInit == Init(C0) /\ todo = C0
Env(t) == \/ \E k \in {"try", "wait"} : Call(t, k, 0) /\ UNCHANGED todo
          \/ \E k \in {"cdown", "arrwait"}, a \in 0..2 : a <= todo /\ Call(t, k, a) /\ todo' = todo - a
Sys(t) == (Internal(t) \/ \E r \in BOOLEAN : Return(t, r)) /\ UNCHANGED todo
MNext == \E t \in Threads : Env(t) \/ Sys(t)
FairSpec == MInit /\ [][MNext]_mcvars /\ \A t \in Threads : WF_mcvars(Sys(t))
TypeOK == c \in 0..C0
Pend(t) == IF st[t].pc = "call" /\ st[t].k \in {"cdown", "arrwait"} THEN st[t].a ELSE 0
RECURSIVE Sum(_)
Sum(A) == IF A = {} THEN 0 ELSE LET t == CHOOSE t \in A : TRUE IN Pend(t) + Sum(A \ {t})
(* the count is exactly what has not arrived *)
Exact == c = todo + Sum(Threads)
Monotone == [][c' <= c]_mcvars
NotBeforeOpen == [][\A t \in Threads : (st[t].pc = "wait" /\ st'[t].pc = "done") => c = 0]_mcvars
TryTruth == [][\A t \in Threads : (st[t].pc = "call" /\ st[t].k = "try" /\ st'[t].pc = "done") => (st'[t].res <=> c = 0)]_mcvars
AllReleased == \A t \in Threads : (c = 0 /\ st[t].pc # "idle") ~> (st[t].pc = "idle")
CountDownNeverBlocks == \A t \in Threads : st[t].pc = "call" /\ st[t].k \in {"cdown", "try"} => ENABLED Internal(t)
=============================================================================
