----------------------------- MODULE YamcScoped -----------------------------
(***************************************************************************)
(* yamc::scoped_lock over several mutexes, used by several threads.        *)
(*                                                                         *)
(* own[m] is the owner of mutex m (NoOne); guard[t] the mutexes held by    *)
(* t's scoped_lock object.  Construction acquires the mutexes one by one   *)
(* in any order and may give some back on the way.                         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Mutexes
VARIABLES own, guard, st
scvars == <<own, guard, st>>
NoOne == 99
SIdle == [pc |-> "idle", k |-> "", want |-> {}, got |-> {}, res |-> 0]
Init == /\ own = [m \in Mutexes |-> NoOne] /\ guard = [t \in Threads |-> {}] /\ st = [t \in Threads |-> SIdle]
Held(t) == {m \in Mutexes : own[m] = t}

CallCtor(t, W, adopt) ==
  /\ st[t].pc = "idle" /\ guard[t] = {}
  /\ IF adopt THEN /\ W \subseteq Held(t) /\ guard' = [guard EXCEPT ![t] = W]
                   /\ st' = [st EXCEPT ![t] = [pc |-> "done", k |-> "adopt", want |-> W, got |-> {}, res |-> 1]]
              ELSE st' = [st EXCEPT ![t] = [pc |-> "acq", k |-> "ctor", want |-> W, got |-> {}, res |-> 0]] /\ UNCHANGED guard
  /\ UNCHANGED own
CallDtor(t) ==
  /\ st[t].pc = "idle"
  /\ st' = [st EXCEPT ![t] = [pc |-> "rel", k |-> "dtor", want |-> guard[t], got |-> guard[t], res |-> 0]] /\ guard' = [guard EXCEPT ![t] = {}]
  /\ UNCHANGED own
(* one of the mutexes is acquired *)
Acq(t, m) == /\ st[t].pc = "acq" /\ m \in st[t].want /\ own[m] = NoOne
             /\ own' = [own EXCEPT ![m] = t] /\ st' = [st EXCEPT ![t].got = @ \cup {m}] /\ UNCHANGED guard
(* one of them is given back, or released *)
Give(t, m) == /\ st[t].pc \in {"acq", "fail", "rel"} /\ m \in st[t].got
              /\ own' = [own EXCEPT ![m] = NoOne] /\ st' = [st EXCEPT ![t].got = @ \ {m}] /\ UNCHANGED guard
(* acquiring one of them fails with an exception *)
Fail(t, r) == /\ st[t].pc = "acq" /\ st' = [st EXCEPT ![t].pc = "fail", ![t].res = r] /\ UNCHANGED <<own, guard>>
(* A checked mutex reports a deadlock: waiting for one of the missing mutexes
   would close a cycle through a mutex this thread holds. *)
WaitsOn(t) == IF st[t].pc = "acq" \/ (st[t].pc = "hand" /\ st[t].k = "lock") THEN {own[m] : m \in st[t].want \ st[t].got} \ {NoOne} ELSE {}
RECURSIVE Reach(_, _)
Reach(A, n) == IF n = 0 THEN A ELSE Reach(A \cup UNION {WaitsOn(u) : u \in A}, n - 1)
Cycle(t) == t \in Reach(WaitsOn(t), Cardinality(Threads))
ReturnOK(t) == /\ \/ st[t].pc = "done"
                  \/ st[t].pc = "acq" /\ st[t].got = st[t].want
                  \/ st[t].pc = "rel" /\ st[t].got = {}
               /\ guard' = IF st[t].k = "ctor" THEN [guard EXCEPT ![t] = st[t].want] ELSE guard
               /\ st' = [st EXCEPT ![t] = SIdle] /\ UNCHANGED own
ReturnError(t, r) == /\ st[t].pc = "fail" /\ st[t].res = r /\ st[t].got = {}
                     /\ st' = [st EXCEPT ![t] = SIdle] /\ UNCHANGED <<own, guard>>

(* The mutexes used directly. *)
CallHand(t, k, m) == /\ st[t].pc = "idle" /\ (k = "unlock") => own[m] = t
                     /\ st' = [st EXCEPT ![t] = [pc |-> "hand", k |-> k, want |-> {m}, got |-> {}, res |-> 0]] /\ UNCHANGED <<own, guard>>
HandTake(t, m) == /\ st[t].pc = "hand" /\ st[t].k \in {"lock", "try"} /\ m \in st[t].want /\ own[m] = NoOne
                  /\ own' = [own EXCEPT ![m] = t] /\ st' = [st EXCEPT ![t].pc = "hdone", ![t].res = 1] /\ UNCHANGED guard
HandFail(t, m) == /\ st[t].pc = "hand" /\ st[t].k = "try" /\ m \in st[t].want /\ own[m] # NoOne
                  /\ st' = [st EXCEPT ![t].pc = "hdone", ![t].res = 0] /\ UNCHANGED <<own, guard>>
HandGive(t, m) == /\ st[t].pc = "hand" /\ st[t].k = "unlock" /\ m \in st[t].want /\ own[m] = t
                  /\ own' = [own EXCEPT ![m] = NoOne] /\ st' = [st EXCEPT ![t].pc = "hdone", ![t].res = 1] /\ UNCHANGED guard
ReturnHand(t, r) == /\ st[t].pc = "hdone" /\ st[t].res = r /\ st' = [st EXCEPT ![t] = SIdle] /\ UNCHANGED <<own, guard>>

Internal(t) == \E m \in st[t].want : Acq(t, m) \/ Give(t, m) \/ HandTake(t, m) \/ HandFail(t, m) \/ HandGive(t, m)

(* Observable: quiescence.  Construction may wait only for a mutex that somebody
   keeps who is not constructing himself. *)
Excused(t) == \E m \in st[t].want \ st[t].got : own[m] \in Threads /\ own[m] # t /\ (st[own[m]].pc = "idle" \/ m \notin st[own[m]].got)
Stuck(t) == \/ st[t].pc \in {"done", "rel", "fail", "hdone"}
            \/ st[t].pc = "acq" /\ ~Excused(t)
            \/ st[t].pc = "hand" /\ ~(st[t].k = "lock" /\ \E m \in st[t].want : own[m] # NoOne)
Quiescent == (\A t \in Threads : ~Stuck(t)) /\ UNCHANGED scvars
-----------------------------------------------------------------------------
TypeOK == \A m \in Mutexes : own[m] \in Threads \cup {NoOne}
(* a live guard owns all of its mutexes *)
GuardOwns == \A t \in Threads : guard[t] \subseteq Held(t)
Disjoint == \A t, u \in Threads : t # u => guard[t] \cap guard[u] = {}
(* nothing stays locked by a construction that failed *)
AllOrNothing == [][\A t \in Threads : (st[t].pc \in {"acq", "fail"} /\ st'[t].pc = "idle") =>
                     (guard'[t] = st[t].want \/ (st[t].pc = "fail" /\ guard'[t] = {} /\ \A m \in st[t].got : own[m] # t))]_scvars
(* somebody can always go on: the constructing threads give way to each other *)
Next == \E t \in Threads : \/ \E W \in SUBSET Mutexes : W # {} /\ Held(t) = {} /\ CallCtor(t, W, FALSE)
                           \/ (\E W \in SUBSET Mutexes : W # {} /\ W = Held(t) /\ CallCtor(t, W, TRUE))
                           \/ CallDtor(t) /\ guard[t] # {}
                           \/ (\E m \in Mutexes : guard[t] = {} /\ Held(t) \cap {m} = {} /\ CallHand(t, "try", m))
                           \/ (\E m \in Held(t) : guard[t] = {} /\ CallHand(t, "unlock", m))
                           \/ Internal(t) \/ Fail(t, 2) \/ ReturnOK(t) \/ ReturnError(t, 2) \/ \E r \in {0, 1} : ReturnHand(t, r)
MCSpec == Init /\ [][Next]_scvars
=============================================================================
