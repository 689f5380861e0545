------------------------------ MODULE YamcLock ------------------------------
(***************************************************************************)
(* One mutex of the yamc library at the level of its public API.           *)
(*                                                                         *)
(* An operation is a Call, some internal steps (the instants at which a    *)
(* request joins the line, is granted, gives up, or a release takes        *)
(* effect), and a Return.  The internal steps are not observable; when a   *)
(* recorded execution is checked, TLC infers them.                         *)
(*                                                                         *)
(* Policy selects the family:                                              *)
(*   "none"    no order among waiters (spin, alternate, checked, posix)    *)
(*   "fifo"    fair mutexes: strictly in request order                     *)
(*   "reader"  ReaderPrefer        "writer"  WriterPrefer                  *)
(*   "task"    TaskFairness        "phase"   PhaseFairness                 *)
(* Obl is the set of obligations that are enforced.  With all of them it   *)
(* is the specification of the library; each property's check enforces     *)
(* its own obligations only, so that it speaks about its property alone:   *)
(*   "excl"    a grant never conflicts with present owners                 *)
(*   "order"   a grant respects the policy's order                         *)
(*   "liveX", "liveS"  no grantable exclusive / shared request is left     *)
(*             waiting when the system is quiescent                        *)
(*   "share"   with readers only, nobody waits and no try fails; a writer   *)
(*             gets the mutex when the last reader has left                *)
(*   "tryX", "tryS"  a failing try operation was not grantable at some     *)
(*             instant of the call                                         *)
(*   "block"   try operations, releases and nested acquisitions do not     *)
(*             wait for other threads                                      *)
(*   "early"   a timed request fails only after its deadline               *)
(*   "false"   ... and only while it is not grantable                      *)
(*   "late"    no timed request outlasts its deadline                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Policy, Recursive, Obl

VARIABLES st,   \* per thread: control state, kind, mode and weight of the current operation
          q,    \* waiting requests in the order in which they were made
          xh,   \* exclusive ownership: nesting depth per thread
          sh    \* shared ownership: number of holds per thread

lockvars == <<st, q, xh, sh>>

Idle == [pc |-> "idle", k |-> "", m |-> "", exp |-> FALSE, res |-> FALSE, w |-> 1]

Init == /\ st = [t \in Threads |-> Idle]
        /\ q = <<>>
        /\ xh = [t \in Threads |-> 0]
        /\ sh = [t \in Threads |-> 0]

-----------------------------------------------------------------------------
XOwners == {t \in Threads : xh[t] > 0}
SOwners == {t \in Threads : sh[t] > 0}

InQ(t) == \E i \in 1..Len(q) : q[i] = t
Pos(t) == CHOOSE i \in 1..Len(q) : q[i] = t
Without(t) == SelectSeq(q, LAMBDA u : u # t)
XWaiting == {t \in Threads : st[t].pc = "wait" /\ st[t].m = "X"}

(* Ownership permits the request. *)
Compat(t, m) == IF m = "X"
                THEN XOwners = {} /\ SOwners = {}
                ELSE XOwners = {}

(* The policy permits the request of t, given the requests standing before it
   in the line (all of them if it is not in the line, as for try operations). *)
Before(t) == IF InQ(t) THEN {q[i] : i \in 1..(Pos(t) - 1)} ELSE {q[i] : i \in 1..Len(q)}
OrderOk(t, m) ==
  CASE Policy = "none"   -> TRUE
    [] Policy = "reader" -> TRUE
    [] Policy = "writer" -> m = "X" \/ XWaiting \ {t} = {}
    [] Policy = "fifo"   -> Before(t) = {}
    [] OTHER             -> \* task, phase
         IF m = "X" THEN Before(t) = {}
         ELSE \A u \in Before(t) : st[u].m = "S"

Grantable(t, m) == Compat(t, m) /\ OrderOk(t, m)

Nested(t) == Recursive /\ st[t].m = "X" /\ xh[t] > 0

-----------------------------------------------------------------------------
(* Observable: an operation starts.  k is "lock", "try", "timed" or "unlock";
   past says that the deadline of a timed request lies in the past.
   w > 1: so many nested acquisitions, or releases, in a row; for mode "S" a
   crowd of w threads acquires, or releases, together (t stands for them).
   "cycle": w times acquire and release while nobody else is interested. *)
CallN(t, k, m, past, w) ==
  /\ st[t].pc = "idle"
  /\ st' = [st EXCEPT ![t] = [pc |-> "call", k |-> k, m |-> m, exp |-> past, res |-> FALSE, w |-> w]]
  /\ UNCHANGED <<q, xh, sh>>
Call(t, k, m, past) == CallN(t, k, m, past, 1)

Done(t, r) == st' = [st EXCEPT ![t].pc = "done", ![t].res = r]

Acquire(t, m) == IF m = "X" THEN xh' = [xh EXCEPT ![t] = @ + st[t].w] /\ UNCHANGED sh
                            ELSE sh' = [sh EXCEPT ![t] = @ + st[t].w] /\ UNCHANGED xh

(* Internal: the owner of a recursive mutex acquires once more. *)
Reenter(t) ==
  /\ st[t].pc = "call" /\ st[t].k \notin {"unlock", "cycle"} /\ Nested(t)
  /\ Acquire(t, "X") /\ Done(t, TRUE) /\ UNCHANGED q

(* Internal: the request joins the line of waiting requests. *)
Enqueue(t) ==
  /\ st[t].pc = "call" /\ st[t].k \in {"lock", "timed"} /\ ~Nested(t)
  /\ q' = Append(q, t)
  /\ st' = [st EXCEPT ![t].pc = "wait"]
  /\ UNCHANGED <<xh, sh>>

(* Internal: a waiting request is granted. *)
Grant(t) ==
  /\ st[t].pc = "wait"
  /\ "excl" \in Obl => Compat(t, st[t].m)
  /\ "order" \in Obl => OrderOk(t, st[t].m)
  /\ Acquire(t, st[t].m) /\ Done(t, TRUE)
  /\ q' = Without(t)

(* Internal: a timed request gives up. *)
Expire(t) ==
  /\ st[t].pc = "wait" /\ st[t].k = "timed"
  /\ "early" \in Obl => st[t].exp
  /\ "false" \in Obl => ~Grantable(t, st[t].m)
  /\ Done(t, FALSE)
  /\ q' = Without(t)
  /\ UNCHANGED <<xh, sh>>

TrySucceed(t) ==
  /\ st[t].pc = "call" /\ st[t].k = "try" /\ ~Nested(t)
  /\ "excl" \in Obl => Compat(t, st[t].m)
  /\ "order" \in Obl => OrderOk(t, st[t].m)
  /\ Acquire(t, st[t].m) /\ Done(t, TRUE) /\ UNCHANGED q

TryObl(m) == IF m = "X" THEN "tryX" \in Obl ELSE "tryS" \in Obl

Pending(t) == st[t].pc # "idle"
(* Nobody but readers is around: a shared request must not have to wait. *)
ShareGrantable(t) == XOwners = {} /\ \A u \in Threads : ~(Pending(u) /\ st[u].m = "X")

(* For a try operation exp says that the hardware's weak compare-exchange
   failed spuriously during the call. *)
TryFail(t) ==
  /\ st[t].pc = "call" /\ st[t].k = "try"
  /\ TryObl(st[t].m) => (st[t].exp \/ ~(Grantable(t, st[t].m) \/ Nested(t)))
  /\ ("share" \in Obl /\ st[t].m = "S") => ~ShareGrantable(t)
  /\ Done(t, FALSE) /\ UNCHANGED <<q, xh, sh>>

(* When a PhaseFairness writer leaves and the oldest request is a reader, all
   waiting readers move ahead of all waiting writers. *)
Phased == IF Policy = "phase" /\ q # <<>> /\ st[Head(q)].m = "S"
          THEN SelectSeq(q, LAMBDA u : st[u].m = "S") \o SelectSeq(q, LAMBDA u : st[u].m = "X")
          ELSE q

Release(t) ==
  /\ st[t].pc = "call" /\ st[t].k = "unlock"
  /\ IF st[t].m = "X"
     THEN /\ xh[t] >= st[t].w
          /\ xh' = [xh EXCEPT ![t] = @ - st[t].w]
          /\ q' = IF xh[t] = st[t].w THEN Phased ELSE q
          /\ UNCHANGED sh
     ELSE /\ sh[t] >= st[t].w
          /\ sh' = [sh EXCEPT ![t] = @ - st[t].w]
          /\ UNCHANGED <<q, xh>>
  /\ Done(t, TRUE)

(* Internal: acquired and released, many times. *)
Cycle(t) ==
  /\ st[t].pc = "call" /\ st[t].k = "cycle"
  /\ Compat(t, st[t].m) /\ OrderOk(t, st[t].m)
  /\ Done(t, TRUE) /\ UNCHANGED <<q, xh, sh>>

Internal(t) ==
  \/ Cycle(t) \/ Reenter(t) \/ Enqueue(t) \/ Grant(t) \/ Expire(t)
  \/ TrySucceed(t) \/ TryFail(t) \/ Release(t)

(* Observable: the operation ends with result r. *)
Return(t, r) ==
  /\ st[t].pc = "done" /\ st[t].res = r
  /\ st' = [st EXCEPT ![t] = Idle]
  /\ UNCHANGED <<q, xh, sh>>

(* Observable: the operation ends with an exception although it was used
   correctly, or the program crashes or stops making progress.  Only checks
   that do not speak about this tolerate it. *)
Tolerant == Obl \cap {"liveX", "liveS", "share", "tryX", "tryS", "block", "false"} = {}
Throws(t) ==
  /\ Tolerant /\ st[t].pc = "call"
  /\ st' = [st EXCEPT ![t] = Idle]
  /\ UNCHANGED <<q, xh, sh>>
Crash == Tolerant /\ UNCHANGED lockvars

(* Observable: time passes; the deadlines of the requests of T are reached. *)
Tick(T) ==
  /\ st' = [t \in Threads |-> IF t \in T THEN [st[t] EXCEPT !.exp = TRUE] ELSE st[t]]
  /\ UNCHANGED <<q, xh, sh>>

-----------------------------------------------------------------------------
(* Observable: no thread can make a step without outside help; "over" are the
   threads whose timed request has outlasted its deadline. *)
(* Nobody owns the mutex and only writers want it: one of them must get it. *)
LastReaderLeft == /\ XOwners = {} /\ SOwners = {}
                  /\ \A u \in Threads : Pending(u) => st[u].m = "X"
Stuck(t) ==
  \/ st[t].pc = "done" /\ {"liveX", "liveS", "share", "block"} \cap Obl # {}
  \/ /\ st[t].pc = "call"
     /\ \/ st[t].k \in {"lock", "timed"}          \* must have joined the line by now
        \/ st[t].k \in {"try", "unlock", "cycle"} /\ ("block" \in Obl)
        \/ Nested(t) /\ "block" \in Obl
  \/ /\ st[t].pc = "wait"
     /\ \/ st[t].m = "X" /\ "liveX" \in Obl /\ Grantable(t, "X")
        \/ st[t].m = "S" /\ "liveS" \in Obl /\ Grantable(t, "S")
        \/ st[t].m = "S" /\ "share" \in Obl /\ ShareGrantable(t)
        \/ st[t].m = "X" /\ "share" \in Obl /\ LastReaderLeft
Quiescent(over) ==
  /\ \A t \in Threads : ~Stuck(t)
  /\ "late" \in Obl => over = {}
  /\ UNCHANGED lockvars

=============================================================================
