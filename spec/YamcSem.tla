------------------------------ MODULE YamcSem ------------------------------
(***************************************************************************)
(* A counting semaphore (generic, POSIX, Win32, GCD) at its public API.    *)
(*                                                                         *)
(* release(a) adds its permits one at a time: the platform wrappers post   *)
(* repeatedly, and an implementation that adds all at once only shows      *)
(* fewer behaviours.  Nothing is said about the order among waiters.       *)
(* Obl is the set of enforced obligations:                                 *)
(*   "count"   a permit is taken only if there is one                      *)
(*   "live"    no acquirer waits at quiescence while there is a permit,    *)
(*             and every release has added all of its permits              *)
(*   "try"     a failing try_acquire saw no permit at some instant         *)
(*   "block"   try_acquire and release do not wait                         *)
(*   "early", "false", "late"   timed acquisition, as in YamcLock          *)
(*   "noexc"   no operation ends with an exception                         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Threads, Obl

VARIABLES st,   \* per thread: control state of its operation
          n     \* permits

semvars == <<st, n>>
SIdle == [pc |-> "idle", k |-> "", a |-> 0, exp |-> FALSE, res |-> FALSE]
Init(n0) == st = [t \in Threads |-> SIdle] /\ n = n0

(* Observable: an operation "acq", "try", "timed" or "rel" starts. *)
Call(t, k, a, past) ==
  /\ st[t].pc = "idle"
  /\ st' = [st EXCEPT ![t] = [pc |-> "call", k |-> k, a |-> a, exp |-> past, res |-> FALSE]]
  /\ UNCHANGED n

Done(t, r) == st' = [st EXCEPT ![t].pc = "done", ![t].res = r]

Take(t) ==
  /\ st[t].pc = "call" /\ st[t].k # "rel"
  /\ "count" \in Obl => n > 0
  /\ n' = IF n > 0 THEN n - 1 ELSE 0
  /\ Done(t, TRUE)

TryFail(t) ==
  /\ st[t].pc = "call" /\ st[t].k = "try"
  /\ "try" \in Obl => n = 0
  /\ Done(t, FALSE) /\ UNCHANGED n

Expire(t) ==
  /\ st[t].pc = "call" /\ st[t].k = "timed"
  /\ "early" \in Obl => st[t].exp
  /\ "false" \in Obl => n = 0
  /\ Done(t, FALSE) /\ UNCHANGED n

Post(t) ==
  /\ st[t].pc = "call" /\ st[t].k = "rel"
  /\ IF st[t].a = 0
     THEN Done(t, TRUE) /\ UNCHANGED n
     ELSE IF st[t].a > 1000 \* huge updates at once only
     THEN Done(t, TRUE) /\ n' = n + st[t].a
     ELSE /\ st' = [st EXCEPT ![t].a = @ - 1, ![t].pc = IF st[t].a = 1 THEN "done" ELSE @, ![t].res = TRUE]
          /\ n' = n + 1

Internal(t) == Take(t) \/ TryFail(t) \/ Expire(t) \/ Post(t)

Return(t, r) ==
  /\ st[t].pc = "done" /\ st[t].res = r
  /\ st' = [st EXCEPT ![t] = SIdle] /\ UNCHANGED n

Tick(T) ==
  /\ st' = [t \in Threads |-> IF t \in T THEN [st[t] EXCEPT !.exp = TRUE] ELSE st[t]]
  /\ UNCHANGED n

(* Observable: an exception, a crash, a loop without progress. *)
Tolerant == Obl \cap {"live", "block", "try", "false", "noexc"} = {}
Throws(t) == Tolerant /\ st[t].pc = "call" /\ st' = [st EXCEPT ![t] = SIdle] /\ UNCHANGED n
Crash == Tolerant /\ UNCHANGED semvars

Stuck(t) ==
  \/ st[t].pc = "done"
  \/ st[t].pc = "call" /\ st[t].k \in {"try", "rel"} /\ "block" \in Obl
  \/ st[t].pc = "call" /\ st[t].k \in {"acq", "timed"} /\ "live" \in Obl /\ n > 0
Quiescent(over) ==
  /\ \A t \in Threads : ~Stuck(t)
  /\ "late" \in Obl => over = {}
  /\ UNCHANGED semvars
=============================================================================
