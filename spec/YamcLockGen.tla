---------------------------- MODULE YamcLockGen ----------------------------
(* Generates test programs from YamcLock.  The environment issues one operation
   at a time, at quiescent states only, or finally two (or three) at once.  The
   history variable hist is hidden by the view; every transition out of a
   quiescent state prints the operations that lead through it. *)
EXTENDS YamcLock, TLC

CONSTANTS Depth,      \* number of operations before the last one
          MaxNest,    \* nesting bound of recursive types
          Shared,     \* shared operations exist
          Timed,      \* timed operations exist
          Races,      \* size of the concurrent last step, 1..3
          Memory      \* how many past operations distinguish states

VARIABLES hist, fin
gvars == <<st, q, xh, sh, hist, fin>>
gview == <<st, q, xh, sh, fin, SubSeq(hist, IF Len(hist) > Memory THEN Len(hist) - Memory + 1 ELSE 1, Len(hist))>>

GInit == Init /\ hist = <<>> /\ fin = FALSE

Settled == \A t \in Threads : st[t].pc \in {"idle", "wait"} /\
              (st[t].pc = "wait" => ~Grantable(t, st[t].m))

(* operations a thread may issue: kind and mode *)
Ops(t) ==
  IF st[t].pc # "idle" THEN {}
  ELSE IF sh[t] > 0 THEN {<<"unlock", "S">>}
  ELSE (IF xh[t] > 0 THEN {<<"unlock", "X">>} ELSE {})
       \cup (IF xh[t] = 0 \/ (Recursive /\ xh[t] < MaxNest)
             THEN {<<"lock", "X">>, <<"try", "X">>} \cup (IF Timed THEN {<<"timed", "X">>, <<"timedlong", "X">>} ELSE {})
             ELSE {})
       \cup (IF Shared /\ xh[t] = 0
             THEN {<<"lock", "S">>, <<"try", "S">>} \cup (IF Timed THEN {<<"timed", "S">>} ELSE {})
             ELSE {})

Kind(o) == IF o[1] = "timedlong" THEN "timed" ELSE o[1]
Calls(A, f) == st' = [t \in Threads |-> IF t \in A THEN [pc |-> "call", k |-> Kind(f[t]), m |-> f[t][2], exp |-> FALSE, res |-> FALSE, w |-> 1] ELSE st[t]]

Issue ==
  /\ Settled /\ ~fin /\ Len(hist) < Depth
  /\ \E t \in Threads : \E o \in Ops(t) :
       /\ Calls({t}, [u \in Threads |-> o])
       /\ hist' = Append(hist, {<<t, o[1], o[2]>>})
  /\ UNCHANGED <<q, xh, sh, fin>>

Race ==
  /\ Settled /\ ~fin /\ Races > 1
  /\ \E A \in SUBSET Threads :
       /\ Cardinality(A) = Races
       /\ \A t \in A : Ops(t) # {}
       /\ \E f \in [A -> UNION {Ops(t) : t \in A}] :
            /\ \A t \in A : f[t] \in Ops(t)
            /\ hist' = Append(hist, {<<t, f[t][1], f[t][2]>> : t \in A})
  /\ fin' = TRUE
  /\ UNCHANGED <<st, q, xh, sh>>

Elapse ==
  /\ Settled /\ ~fin /\ Timed /\ Len(hist) < Depth
  /\ \E t \in Threads : st[t].pc = "wait" /\ st[t].k = "timed" /\ ~st[t].exp
       /\ st' = [st EXCEPT ![t].exp = TRUE]
       /\ hist' = Append(hist, {<<t, "tick", "">>})
  /\ UNCHANGED <<q, xh, sh, fin>>

(* a deadline that has passed makes the request give up at once *)
Inner ==
  /\ ~fin /\ UNCHANGED <<hist, fin>>
  /\ \E t \in Threads :
       \/ Reenter(t) \/ Enqueue(t) \/ Grant(t) \/ TrySucceed(t) \/ TryFail(t) \/ Release(t)
       \/ (st[t].exp /\ Expire(t))
       \/ Return(t, st[t].res)

GNext == IF Settled /\ ~(\E t \in Threads : st[t].pc = "wait" /\ st[t].exp)
         THEN Issue \/ Race \/ Elapse ELSE Inner

GSpec == GInit /\ [][GNext]_gvars

(* printed for every transition that extends the history *)
Emit == IF hist' # hist THEN PrintT(<<"PROG", ToString(hist')>>) ELSE TRUE
Sym == Permutations(Threads)
=============================================================================
