--------------------------- MODULE YamcSharedLock ---------------------------
(***************************************************************************)
(* yamc::shared_lock: several lock objects (slots) over several mutexes.   *)
(*                                                                         *)
(* A call on a lock object is a transition system of its own: Call, the    *)
(* calls it makes on the mutex (observable, with their outcome), Return.   *)
(* hold[m] is the number of shared holds on mutex m as the mutex saw them; *)
(* raw[m] those the user has outside of any lock object (he locked by      *)
(* hand, or took over through release()).                                  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Slots, Mutexes      \* finite sets of positive numbers; 0 is "no mutex"

VARIABLES slot, hold, raw, cur
slvars == <<slot, hold, raw, cur>>

Gone == [live |-> FALSE, pm |-> 0, owns |-> FALSE]
Idle == [k |-> "", s |-> 0, s2 |-> 0, m |-> 0, arg |-> 0, pc |-> "idle", res |-> 0]
Init == /\ slot = [s \in Slots |-> Gone]
        /\ hold = [m \in Mutexes |-> 0] /\ raw = [m \in Mutexes |-> 0]
        /\ cur = Idle

OK == 1  FALS == 0  DEADLOCK == 2  NOTPERM == 3  THROWN == 9

Ctors == {"defer", "lockctor", "tryctor", "forctor", "untilctor", "adopt"}     \* with a mutex
LockOps == {"lock", "try", "for", "until"}
(* which call on the mutex each one makes *)
Method(k) == CASE k \in {"lock", "lockctor"} -> "lock_shared"
               [] k \in {"try", "tryctor"} -> "try_lock_shared"
               [] k \in {"for", "forctor"} -> "try_lock_shared_for"
               [] k \in {"until", "untilctor"} -> "try_lock_shared_until"
               [] k \in {"unlock", "dtor", "moveassign"} -> "unlock_shared"

Own(s) == slot[s].live /\ slot[s].owns

(* what the caller has to guarantee *)
Legal(k, s, s2, m) ==
  CASE k = "default" -> ~slot[s].live
    [] k = "adopt" -> ~slot[s].live /\ m \in Mutexes /\ raw[m] > 0
    [] k \in Ctors \ {"adopt"} -> ~slot[s].live /\ m \in Mutexes
    [] k = "movector" -> ~slot[s].live /\ slot[s2].live
    [] k \in {"moveassign", "swap", "stdswap"} -> slot[s].live /\ slot[s2].live
    [] k \in LockOps \cup {"unlock", "release", "dtor"} -> slot[s].live
    [] OTHER -> FALSE

(* How a call ends that makes no call on a mutex, or where it goes next. *)
Enter(k, s, s2, m) ==
  CASE k \in Ctors \ {"defer", "adopt"} -> "mutex"
    [] k \in LockOps -> IF slot[s].pm = 0 \/ slot[s].owns THEN "end" ELSE "mutex"
    [] k = "unlock" -> IF slot[s].owns THEN "mutex" ELSE "end"
    [] k = "dtor" -> IF slot[s].owns THEN "mutex" ELSE "end"
    [] k = "moveassign" -> IF slot[s].owns THEN "mutex" ELSE "end"
    [] OTHER -> "end"
Result(k, s) ==
  CASE k \in LockOps -> IF slot[s].pm = 0 THEN NOTPERM ELSE DEADLOCK
    [] k = "unlock" -> NOTPERM
    [] k = "release" -> 100 + slot[s].pm
    [] OTHER -> OK
(* the effect of a call that is complete, given what the mutex answered *)
Complete(k, s, s2, m, ok) ==
  CASE k = "default" -> slot' = [slot EXCEPT ![s] = [live |-> TRUE, pm |-> 0, owns |-> FALSE]] /\ UNCHANGED raw
    [] k = "defer" -> slot' = [slot EXCEPT ![s] = [live |-> TRUE, pm |-> m, owns |-> FALSE]] /\ UNCHANGED raw
    [] k = "adopt" -> slot' = [slot EXCEPT ![s] = [live |-> TRUE, pm |-> m, owns |-> TRUE]] /\ raw' = [raw EXCEPT ![m] = @ - 1]
    [] k \in Ctors \ {"defer", "adopt"} -> slot' = [slot EXCEPT ![s] = [live |-> TRUE, pm |-> m, owns |-> ok]] /\ UNCHANGED raw
    [] k = "movector" -> slot' = [slot EXCEPT ![s] = slot[s2], ![s2] = [live |-> TRUE, pm |-> 0, owns |-> FALSE]] /\ UNCHANGED raw
    [] k = "moveassign" ->
         IF s = s2 THEN slot' = [slot EXCEPT ![s] = [live |-> TRUE, pm |-> 0, owns |-> FALSE]] /\ UNCHANGED raw
         ELSE slot' = [slot EXCEPT ![s] = slot[s2], ![s2] = [live |-> TRUE, pm |-> 0, owns |-> FALSE]] /\ UNCHANGED raw
    [] k \in {"swap", "stdswap"} -> slot' = [slot EXCEPT ![s] = slot[s2], ![s2] = slot[s]] /\ UNCHANGED raw
    [] k \in LockOps -> slot' = [slot EXCEPT ![s].owns = @ \/ ok] /\ UNCHANGED raw
    [] k = "unlock" -> slot' = [slot EXCEPT ![s].owns = @ /\ ~ok] /\ UNCHANGED raw
    [] k = "release" -> slot' = [slot EXCEPT ![s] = [live |-> TRUE, pm |-> 0, owns |-> FALSE]]
                        /\ raw' = IF slot[s].owns THEN [raw EXCEPT ![slot[s].pm] = @ + 1] ELSE raw
    [] k = "dtor" -> slot' = [slot EXCEPT ![s] = Gone] /\ UNCHANGED raw

Call(k, s, s2, m, arg) ==
  /\ cur.pc = "idle" /\ Legal(k, s, s2, m)
  /\ LET e == Enter(k, s, s2, m) IN
     \/ /\ e = "mutex"
        /\ cur' = [k |-> k, s |-> s, s2 |-> s2, m |-> IF k \in Ctors THEN m ELSE slot[s].pm, arg |-> arg, pc |-> "mutex", res |-> 0]
        /\ UNCHANGED <<slot, raw>>
     \/ /\ e = "end"
        /\ cur' = [k |-> k, s |-> s, s2 |-> s2, m |-> m, arg |-> arg, pc |-> "ret", res |-> Result(k, s)]
        /\ IF Result(k, s) \in {DEADLOCK, NOTPERM} THEN UNCHANGED <<slot, raw>> ELSE Complete(k, s, s2, m, FALSE)
     \/ (* assigning a lock object to itself may also leave it as it is *)
        /\ k = "moveassign" /\ s = s2
        /\ cur' = [k |-> k, s |-> s, s2 |-> s2, m |-> m, arg |-> arg, pc |-> "ret", res |-> OK] /\ UNCHANGED <<slot, raw>>
  /\ UNCHANGED hold

(* Observable: the lock object calls its mutex, which answers 0 (false),
   1 (done) or 9 (throws). *)
Mutex(method, m, arg, out) ==
  /\ cur.pc = "mutex" /\ method = Method(cur.k) /\ m = cur.m
  /\ cur.k \in {"for", "until", "forctor", "untilctor"} => arg = cur.arg
  /\ out = FALS => method \in {"try_lock_shared", "try_lock_shared_for", "try_lock_shared_until"}
  /\ IF out = THROWN
     THEN /\ cur' = [cur EXCEPT !.pc = "ret", !.res = THROWN] /\ UNCHANGED <<slot, hold, raw>>
     ELSE /\ cur' = [cur EXCEPT !.pc = "ret", !.res = IF cur.k \in {"try", "for", "until"} THEN out ELSE OK]
          /\ Complete(cur.k, cur.s, cur.s2, m, out = OK)
          /\ hold' = IF out = FALS THEN hold ELSE [hold EXCEPT ![m] = IF method = "unlock_shared" THEN @ - 1 ELSE @ + 1]

Return(res) == /\ cur.pc = "ret" /\ cur.res = res /\ cur' = Idle /\ UNCHANGED <<slot, hold, raw>>

(* Observable: what a lock object says about itself. *)
Seen(s, pm, owns) == /\ cur.pc = "idle" /\ slot[s] = [live |-> TRUE, pm |-> pm, owns |-> owns] /\ UNCHANGED slvars

(* The user locks and unlocks by hand. *)
ByHand(m, d) == /\ cur.pc = "idle" /\ raw[m] + d >= 0
                /\ raw' = [raw EXCEPT ![m] = @ + d] /\ hold' = [hold EXCEPT ![m] = @ + d] /\ UNCHANGED <<slot, cur>>
-----------------------------------------------------------------------------
(* Never leaked, duplicated or released twice. *)
Accounted == \A m \in Mutexes : hold[m] = raw[m] + Cardinality({s \in Slots : slot[s].live /\ slot[s].owns /\ slot[s].pm = m})
OwnsHasMutex == \A s \in Slots : slot[s].owns => slot[s].live /\ slot[s].pm # 0
TypeOK == /\ \A m \in Mutexes : hold[m] \in Nat /\ raw[m] \in Nat
          /\ cur.pc \in {"idle", "mutex", "ret"}
=============================================================================
