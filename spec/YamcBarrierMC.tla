--------------------------- MODULE YamcBarrierMC ---------------------------
EXTENDS YamcBarrier
CONSTANTS E0, MaxPhase
VARIABLE runs      \* completion functions run
mcvars == <<st, phase, left, exp, comp, tok, runs>>
MInit == Init(E0) /\ runs = 0
RECURSIVE Sum(_)
Pend(t) == IF st[t].pc = "call" /\ st[t].k # "wait" THEN st[t].a ELSE 0
Sum(A) == IF A = {} THEN 0 ELSE LET t == CHOOSE t \in A : TRUE IN Pend(t) + Sum(A \ {t})
Drops == Cardinality({t \in Threads : st[t].pc = "call" /\ st[t].k = "drop"})
(* the precondition, whatever the order in which pending arrivals are counted *)
Legal(t, k, a) ==
  LET s == Sum(Threads) + a
      e == exp - Drops - (IF k = "drop" THEN 1 ELSE 0)
  IN comp = "no" /\ (s <= left \/ (a = 1 /\ (\A u \in Threads : Pend(u) <= 1) /\ e >= 1 /\ s <= left + e))
Env(t) == /\ UNCHANGED runs /\ phase < MaxPhase
          /\ \/ \E a \in 1..2 : Legal(t, "arrive", a) /\ Call(t, "arrive", a)
             \/ \E k \in {"arrwait", "drop"} : Legal(t, k, 1) /\ Call(t, k, 1)
             \/ tok[t] >= 0 /\ Call(t, "wait", 0)
Sys(t) == (Internal(t) \/ Return(t)) /\ UNCHANGED runs
C == (CompStart /\ comp = "due" /\ runs' = runs + 1) \/ (CompEnd /\ comp = "running" /\ UNCHANGED runs)
MNext == (\E t \in Threads : Env(t) \/ Sys(t)) \/ C
SafeSpec == MInit /\ [][MNext]_mcvars
FairSpec == MInit /\ [][MNext]_mcvars /\ WF_mcvars(C) /\ \A t \in Threads : WF_mcvars(Sys(t))
TypeOK == left \in 0..E0 /\ exp \in 0..E0 /\ phase <= MaxPhase + 1 /\ \A t \in Threads : tok[t] <= phase
OncePerPhase == runs = phase + (IF comp = "running" THEN 1 ELSE 0)
CompletesWhenAllArrived == [][comp' = "due" /\ comp = "no" <=> (left' = 0 /\ left > 0)]_mcvars
NotBeforePhaseEnd == [][\A t \in Threads : (st[t].pc = "wait" /\ st'[t].pc = "done" /\ st[t].k # "drop") => st[t].ph < phase]_mcvars
ExpectedOnlyDrops == [][exp' \in {exp, exp - 1} /\ (exp' < exp => \E t \in Threads : st[t].k = "drop" /\ st[t].pc = "call" /\ st'[t].pc # "call")]_mcvars
NextPhaseExpects == [][phase' = phase + 1 => left' = exp]_mcvars
NoArrivalLost == \A t \in Threads : (st[t].pc = "call") ~> (st[t].pc # "call")
EveryWaiterReleased == \A t \in Threads : (st[t].pc = "wait" /\ st[t].ph < phase) ~> (st[t].pc # "wait")
=============================================================================
