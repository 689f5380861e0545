---------------------------- MODULE YamcLockLine ----------------------------
(* Test programs about the line of waiting requests: one thread owns the mutex,
   all the others make requests one after another, then deadlines pass and
   owners release in any order until everybody has been served. *)
EXTENDS YamcLockGen

Called(t) == \E i \in 1..Len(hist) : \E e \in hist[i] : e[1] = t /\ e[2] # "tick" /\ e[2] # "unlock"
AllCalled == \A t \in Threads : Called(t)
LOps(t) ==
  IF st[t].pc # "idle" THEN {}
  ELSE IF ~Called(t)
       THEN {<<"lock", "X">>} \cup (IF Shared THEN {<<"lock", "S">>} ELSE {})
            \cup (IF Timed /\ hist # <<>> THEN {<<"timed", "X">>} \cup (IF Shared THEN {<<"timed", "S">>} ELSE {}) ELSE {})
       ELSE IF AllCalled THEN (IF xh[t] > 0 THEN {<<"unlock", "X">>} ELSE {}) \cup (IF sh[t] > 0 THEN {<<"unlock", "S">>} ELSE {})
       ELSE {}

LIssue ==
  /\ Len(hist) < Depth
  /\ \E t \in Threads : \E o \in LOps(t) :
       /\ Calls({t}, [u \in Threads |-> o])
       /\ hist' = Append(hist, {<<t, o[1], o[2]>>})
  /\ UNCHANGED <<q, xh, sh, fin>>
(* the deadline of the oldest timed request *)
LElapse ==
  /\ AllCalled /\ Len(hist) < Depth
  /\ \E i \in 1..Len(q) :
       /\ st[q[i]].k = "timed" /\ ~st[q[i]].exp
       /\ \A j \in 1..(i - 1) : st[q[j]].k # "timed"
       /\ st' = [st EXCEPT ![q[i]].exp = TRUE]
       /\ hist' = Append(hist, {<<q[i], "tick", "">>})
  /\ UNCHANGED <<q, xh, sh, fin>>

LNext == IF Settled /\ ~(\E t \in Threads : st[t].pc = "wait" /\ st[t].exp)
         THEN LIssue \/ LElapse ELSE Inner
LSpec == GInit /\ [][LNext]_gvars
=============================================================================
