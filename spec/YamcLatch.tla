----------------------------- MODULE YamcLatch -----------------------------
(***************************************************************************)
(* A latch.  Callers respect its precondition: the arrivals sum up to at   *)
(* most the initial count.                                                 *)
(*   "early"   nobody is told that the latch is open before it is          *)
(*   "try"     try_wait reports an open latch                              *)
(*   "live"    at quiescence nobody waits at an open latch                 *)
(*   "block"   count_down and try_wait do not wait                         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Obl
VARIABLES st, c
latchvars == <<st, c>>
LIdle == [pc |-> "idle", k |-> "", a |-> 0, res |-> FALSE]
Init(c0) == st = [t \in Threads |-> LIdle] /\ c = c0

(* operations: "cdown", "try", "wait", "arrwait" *)
Call(t, k, a) ==
  /\ st[t].pc = "idle"
  /\ st' = [st EXCEPT ![t] = [pc |-> "call", k |-> k, a |-> a, res |-> FALSE]]
  /\ UNCHANGED c
Arrive(t) ==
  /\ st[t].pc = "call" /\ st[t].k \in {"cdown", "arrwait"}
  /\ c' = IF st[t].a > c THEN 0 ELSE c - st[t].a
  /\ st' = [st EXCEPT ![t].pc = IF st[t].k = "cdown" THEN "done" ELSE "wait", ![t].res = TRUE]
Begin(t) == /\ st[t].pc = "call" /\ st[t].k = "wait"
            /\ st' = [st EXCEPT ![t].pc = "wait"] /\ UNCHANGED c
Pass(t) == /\ st[t].pc = "wait"
           /\ "early" \in Obl => c = 0
           /\ st' = [st EXCEPT ![t].pc = "done", ![t].res = TRUE] /\ UNCHANGED c
Try(t) == /\ st[t].pc = "call" /\ st[t].k = "try"
          /\ \E r \in BOOLEAN :
               /\ r => ("early" \in Obl => c = 0)
               /\ ~r => ("try" \in Obl => c # 0)
               /\ st' = [st EXCEPT ![t].pc = "done", ![t].res = r]
          /\ UNCHANGED c
Internal(t) == Arrive(t) \/ Begin(t) \/ Pass(t) \/ Try(t)
Return(t, r) == /\ st[t].pc = "done" /\ st[t].res = r
                /\ st' = [st EXCEPT ![t] = LIdle] /\ UNCHANGED c
Stuck(t) == \/ st[t].pc = "done"
            \/ st[t].pc = "call" /\ st[t].k # "wait" /\ "block" \in Obl
            \/ st[t].pc \in {"call", "wait"} /\ st[t].k \in {"wait", "arrwait"} /\ "live" \in Obl /\ c = 0
            \/ st[t].pc = "call" /\ st[t].k = "arrwait" /\ "live" \in Obl
Quiescent == (\A t \in Threads : ~Stuck(t)) /\ UNCHANGED latchvars
=============================================================================
