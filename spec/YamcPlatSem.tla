---------------------------- MODULE YamcPlatSem ----------------------------
(* A semaphore made of a native one: YamcSem with failing native calls and
   native timed waits that end a little early (see YamcPlatLock). *)
EXTENDS YamcSem
VARIABLE cap   \* the native semaphore's maximum; 0: it has none
pvars == <<st, n, cap>>
Fault(t) == /\ st[t].pc = "call" /\ st' = [st EXCEPT ![t].pc = "failed"] /\ UNCHANGED n
FailFalse(t) == /\ st[t].pc = "failed" /\ st[t].k = "try" /\ st' = [st EXCEPT ![t] = SIdle] /\ UNCHANGED n
FailError(t) == /\ st[t].pc = "failed" /\ st[t].k # "try" /\ st' = [st EXCEPT ![t] = SIdle] /\ UNCHANGED n
NativeTimeout(t) == /\ st[t].pc = "call" /\ st[t].k = "timed" /\ n = 0 /\ st' = [st EXCEPT ![t].pc = "late"] /\ UNCHANGED n
LateFalse(t) == /\ st[t].pc = "late" /\ st[t].exp /\ st' = [st EXCEPT ![t] = SIdle] /\ UNCHANGED n
(* Internal: a release that would exceed the maximum (the caller broke the
   precondition) may be refused, as a whole. *)
Refuse(t) == /\ st[t].pc = "call" /\ st[t].k = "rel" /\ ~st[t].res /\ cap > 0 /\ n + st[t].a > cap
             /\ st' = [st EXCEPT ![t].pc = "failed"] /\ UNCHANGED n
PInternal(t) == Internal(t) \/ NativeTimeout(t) \/ Refuse(t)
PReturn(t, r) == Return(t, r) \/ (~r /\ (FailFalse(t) \/ LateFalse(t)))
PQuiescent(over) == Quiescent(over) /\ \A t \in Threads : st[t].pc # "failed"
=============================================================================
