---------------------------- MODULE YamcBarrier ----------------------------
(***************************************************************************)
(* A barrier with a completion function.  Callers respect its precondition *)
(* (no more arrivals in a phase than expected).                            *)
(*                                                                         *)
(* A phase completes when all expected arrivals were made: the completion  *)
(* function is started, runs, ends, and with its end the next phase        *)
(* begins.  A thread keeps the token of its last arrival.  arrive_and_drop *)
(* may return at once or with the end of the phase (yamc's does the        *)
(* latter).                                                                *)
(*   "once"    the completion function runs once per phase, after the last *)
(*             arrival                                                     *)
(*   "early"   no waiter is released before its phase has completed        *)
(*   "live"    at quiescence no phase is left uncompleted, nobody waits    *)
(*             for a completed phase                                       *)
(*   "block"   arrive does not wait                                        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Obl
VARIABLES st,
          phase,    \* completed phases
          left,     \* arrivals still expected in this phase
          exp,      \* arrivals expected in every later phase
          comp,     \* "no", "due", "running": the completion function of this phase
          tok       \* per thread: phase of the token it holds, or -1
barvars == <<st, phase, left, exp, comp, tok>>
BIdle == [pc |-> "idle", k |-> "", a |-> 0, ph |-> -1]   \* ph: the phase it waits for
Init(e) == /\ st = [t \in Threads |-> BIdle] /\ phase = 0 /\ left = e /\ exp = e /\ comp = "no"
           /\ tok = [t \in Threads |-> -1]

(* operations: "arrive", "wait", "arrwait", "drop" *)
Call(t, k, a) ==
  /\ st[t].pc = "idle"
  /\ st' = [st EXCEPT ![t] = [pc |-> "call", k |-> k, a |-> a, ph |-> -1]]
  /\ UNCHANGED <<phase, left, exp, comp, tok>>

(* Internal: the arrival is counted. *)
Arrive(t) ==
  /\ st[t].pc = "call" /\ st[t].k # "wait" /\ comp = "no"
  /\ left >= st[t].a
  /\ left' = left - st[t].a
  /\ comp' = IF left' = 0 THEN "due" ELSE "no"
  /\ exp' = IF st[t].k = "drop" THEN exp - 1 ELSE exp
  /\ tok' = IF st[t].k = "arrive" THEN [tok EXCEPT ![t] = phase] ELSE tok
  /\ st' = [st EXCEPT ![t].pc = IF st[t].k = "arrive" THEN "done" ELSE "wait", ![t].ph = phase]
  /\ UNCHANGED phase
Begin(t) ==
  /\ st[t].pc = "call" /\ st[t].k = "wait"
  /\ st' = [st EXCEPT ![t].pc = "wait", ![t].ph = tok[t]]
  /\ UNCHANGED <<phase, left, exp, comp, tok>>
Pass(t) ==
  /\ st[t].pc = "wait"
  /\ "early" \in Obl => (st[t].ph < phase \/ st[t].k = "drop")
  /\ st' = [st EXCEPT ![t].pc = "done"]
  /\ UNCHANGED <<phase, left, exp, comp, tok>>
Internal(t) == Arrive(t) \/ Begin(t) \/ Pass(t)

(* Observable: the completion function starts / ends in some thread. *)
CompStart == /\ "once" \in Obl => comp = "due"
             /\ comp' = IF comp = "due" THEN "running" ELSE comp
             /\ UNCHANGED <<st, phase, left, exp, tok>>
CompEnd == IF comp = "running"
           THEN /\ comp' = "no" /\ phase' = phase + 1 /\ left' = exp
                /\ UNCHANGED <<st, exp, tok>>
           ELSE "once" \notin Obl /\ UNCHANGED barvars

Return(t) == /\ st[t].pc = "done"
             /\ st' = [st EXCEPT ![t] = BIdle]
             /\ UNCHANGED <<phase, left, exp, comp, tok>>

(* Observable: m further phases were completed by an undisturbed thread that
   arrived with all expected arrivals m times (a macro step for long runs). *)
Cycle(t, m) == /\ st[t].pc = "idle" /\ comp = "no" /\ left = exp /\ \A u \in Threads : st[u].pc = "idle"
               /\ phase' = phase + m
               /\ UNCHANGED <<st, left, exp, comp, tok>>

Stuck(t) ==
  \/ st[t].pc = "done"
  \/ st[t].pc = "call" /\ st[t].k = "arrive" /\ "block" \in Obl
  \/ st[t].pc = "call" /\ "live" \in Obl /\ (st[t].k # "wait" \/ tok[t] < phase)
  \/ st[t].pc = "wait" /\ "live" \in Obl /\ st[t].ph < phase
Quiescent == /\ \A t \in Threads : ~Stuck(t)
             /\ "live" \in Obl => comp = "no"
             /\ UNCHANGED barvars
=============================================================================
