---------------------------- MODULE YamcChecked ----------------------------
(***************************************************************************)
(* Several checked mutexes used together: ownership, detection of misuse,  *)
(* deadlock detection over the wait-for graph.                             *)
(*                                                                         *)
(* conf[o] describes object o: rec (recursive), pol ("x" exclusive only,   *)
(* "reader", "writer").  A result is a number: 0 false, 1 true,            *)
(* 2 resource_deadlock_would_occur, 3 operation_not_permitted.             *)
(*                                                                         *)
(* Obligations:                                                            *)
(*   "excl"    exclusion                                                   *)
(*   "live"    nobody waits for what could be granted; operations end      *)
(*   "try"     try and timed operations fail only if not grantable         *)
(*   "misuse"  misuse is reported, with the right code; correct use is not *)
(*   "report"  a deadlock is reported only if waiting would close a cycle  *)
(*   "detect"  no cycle of waiting threads remains                         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Threads, Objects, Obl,
          Abort,     \* YAMC_CHECKED_CALL_ABORT
          Detect     \* YAMC_CHECKED_DETECT_DEADLOCK

VARIABLES conf, st,
          xo,   \* xo[o]: nesting depth of exclusive ownership per thread
          so,   \* so[o]: set of shared owners
          alive
chkvars == <<conf, st, xo, so, alive>>

CIdle == [pc |-> "idle", k |-> "", m |-> "", o |-> 0, exp |-> FALSE, res |-> 0]
Init == /\ conf = [o \in Objects |-> [rec |-> FALSE, pol |-> "x"]]
        /\ st = [t \in Threads |-> CIdle]
        /\ xo = [o \in Objects |-> [t \in Threads |-> 0]]
        /\ so = [o \in Objects |-> {}]
        /\ alive = Objects

XOwners(o) == {t \in Threads : xo[o][t] > 0}
Owners(o) == XOwners(o) \cup so[o]
Owns(t, o) == t \in Owners(o)
Acquiring == {"lock", "try", "timed"}
Pending(t) == st[t].pc \in {"call", "wait"}

Compat(o, m) == IF m = "X" THEN Owners(o) = {} ELSE XOwners(o) = {}
XWaiting(t, o) == {u \in Threads \ {t} : st[u].pc = "wait" /\ st[u].o = o /\ st[u].m = "X"}
Grantable(t) == Compat(st[t].o, st[t].m) /\ (conf[st[t].o].pol = "writer" /\ st[t].m = "S" => XWaiting(t, st[t].o) = {})

(* The calling thread may not do what it asks for. *)
Relock(t) == st[t].k \in Acquiring /\ Owns(t, st[t].o) /\ ~conf[st[t].o].rec
BadUnlock(t) == st[t].k = "unlock" /\ (IF st[t].m = "X" THEN xo[st[t].o][t] = 0 ELSE t \notin so[st[t].o])
BadDestroy(t) == st[t].k = "dtor" /\ Owners(st[t].o) # {}
Misuse(t) == Relock(t) \/ BadUnlock(t) \/ BadDestroy(t)
MisuseCode(t) == IF st[t].k = "unlock" THEN 3 ELSE 2
Nested(t) == st[t].k \in Acquiring /\ conf[st[t].o].rec /\ xo[st[t].o][t] > 0

-----------------------------------------------------------------------------
(* The wait-for graph.  W are the threads regarded as waiting. *)
Blocked(t) == Pending(t) /\ st[t].k = "lock" /\ ~Misuse(t) /\ ~Nested(t) /\ ~Grantable(t)
Waits == {t \in Threads : st[t].pc = "wait" /\ Blocked(t)}
Next1(W, A) == A \cup UNION {Owners(st[t].o) : t \in A \cap W}
RECURSIVE Closure(_, _, _)
Closure(W, A, n) == LET B == Next1(W, A) IN IF n = 0 \/ B = A THEN A ELSE Closure(W, B, n - 1)
(* if t waited for object o, it would wait for itself *)
ClosesCycle(t, W) == t \in Closure(W \ {t}, Owners(st[t].o), Cardinality(Threads))

-----------------------------------------------------------------------------
Call(t, o, k, m, past) ==
  /\ st[t].pc = "idle" /\ o \in alive
  /\ st' = [st EXCEPT ![t] = [pc |-> "call", k |-> k, m |-> m, o |-> o, exp |-> past, res |-> 0]]
  /\ UNCHANGED <<conf, xo, so, alive>>

Done(t, r) == st' = [st EXCEPT ![t].pc = "done", ![t].res = r]
Take(t) == LET o == st[t].o IN
  IF st[t].m = "X" THEN xo' = [xo EXCEPT ![o][t] = @ + 1] /\ UNCHANGED so
                   ELSE so' = [so EXCEPT ![o] = @ \cup {t}] /\ UNCHANGED xo
Fine(t) == "misuse" \in Obl => ~Misuse(t)

(* Internal: misuse is detected; nothing but the result changes. *)
Detected(t) ==
  /\ st[t].pc = "call" /\ Misuse(t)
  /\ Done(t, MisuseCode(t))
  /\ alive' = IF st[t].k = "dtor" THEN alive \ {st[t].o} ELSE alive
  /\ xo' = IF st[t].k = "dtor" THEN [xo EXCEPT ![st[t].o] = [u \in Threads |-> 0]] ELSE xo
  /\ so' = IF st[t].k = "dtor" THEN [so EXCEPT ![st[t].o] = {}] ELSE so
  /\ UNCHANGED conf
Destroy(t) ==
  /\ st[t].pc = "call" /\ st[t].k = "dtor" /\ Fine(t)
  /\ Done(t, 1) /\ alive' = alive \ {st[t].o}
  /\ xo' = [xo EXCEPT ![st[t].o] = [u \in Threads |-> 0]] /\ so' = [so EXCEPT ![st[t].o] = {}]
  /\ UNCHANGED conf
Reenter(t) ==
  /\ st[t].pc = "call" /\ Nested(t) /\ Take(t) /\ Done(t, 1) /\ UNCHANGED <<conf, alive>>
Grant(t) ==
  /\ Pending(t) /\ st[t].k \in Acquiring /\ ~Nested(t) /\ Fine(t)
  /\ "excl" \in Obl => Compat(st[t].o, st[t].m)
  /\ Take(t) /\ Done(t, 1) /\ UNCHANGED <<conf, alive>>
(* the request begins to wait, or wakes up and looks again *)
MayWait(t) == st[t].pc = "call" /\ st[t].k \in {"lock", "timed"} /\ ~Nested(t) /\ Fine(t) /\ ~Grantable(t)
Wait(t) ==
  /\ MayWait(t)
  /\ st' = [st EXCEPT ![t].pc = "wait"]
  /\ UNCHANGED <<conf, xo, so, alive>>
Wake(t) ==
  /\ st[t].pc = "wait" /\ st[t].k = "lock"
  /\ st' = [st EXCEPT ![t].pc = "call"]
  /\ UNCHANGED <<conf, xo, so, alive>>
Fail(t) ==
  /\ Pending(t) /\ st[t].k \in {"try", "timed"} /\ Fine(t) /\ ~Nested(t)
  /\ "try" \in Obl => ~Grantable(t) /\ (st[t].k = "timed" => st[t].exp)
  /\ Done(t, 0) /\ UNCHANGED <<conf, xo, so, alive>>
(* Internal: waiting would close a cycle, and that is reported. *)
Report(t) ==
  /\ Detect /\ Pending(t) /\ st[t].k = "lock" /\ Fine(t) /\ Blocked(t)
  /\ "report" \in Obl => ClosesCycle(t, Waits)
  /\ Done(t, 2) /\ UNCHANGED <<conf, xo, so, alive>>
Release(t) ==
  /\ st[t].pc = "call" /\ st[t].k = "unlock" /\ ~BadUnlock(t)
  /\ IF st[t].m = "X" THEN xo' = [xo EXCEPT ![st[t].o][t] = @ - 1] /\ UNCHANGED so
                      ELSE so' = [so EXCEPT ![st[t].o] = @ \ {t}] /\ UNCHANGED xo
  /\ Done(t, 1) /\ UNCHANGED <<conf, alive>>
(* Without Wake every recorded execution is accepted that is accepted with it: a
   thread that did not wake up can do all that it could do after waking, and
   the more threads wait the more cycles may be reported. *)
Internal2(t) == Detected(t) \/ Destroy(t) \/ Reenter(t) \/ Grant(t) \/ Wait(t) \/ Fail(t) \/ Report(t) \/ Release(t)
Internal(t) == Detected(t) \/ Destroy(t) \/ Reenter(t) \/ Grant(t) \/ Wait(t) \/ Wake(t) \/ Fail(t) \/ Report(t) \/ Release(t)

(* Observable: the operation returns a result or throws.  In abort mode errors
   do not return. *)
Return(t, r) ==
  /\ st[t].pc = "done" /\ st[t].res = r
  /\ r >= 2 => ~Abort
  /\ st' = [st EXCEPT ![t] = CIdle]
  /\ UNCHANGED <<conf, xo, so, alive>>
(* Observable: the process aborts. *)
Aborts(t) == Abort /\ st[t].pc = "done" /\ st[t].res >= 2 /\ UNCHANGED chkvars

Tick(T) ==
  /\ st' = [t \in Threads |-> IF t \in T THEN [st[t] EXCEPT !.exp = TRUE] ELSE st[t]]
  /\ UNCHANGED <<conf, xo, so, alive>>

(* Observable: quiescence *)
AllBlocked == {t \in Threads : Blocked(t)}
Stuck(t) ==
  \/ st[t].pc = "done"
  \/ /\ Pending(t) /\ "live" \in Obl
     /\ \/ st[t].k \notin {"lock", "timed"} \/ Nested(t) \/ Misuse(t)
        \/ Grantable(t)
        \/ st[t].pc = "call"
Quiescent ==
  /\ \A t \in Threads : ~Stuck(t)
  /\ (Detect /\ "detect" \in Obl) => \A t \in AllBlocked : ~ClosesCycle(t, AllBlocked)
  /\ UNCHANGED chkvars
=============================================================================
