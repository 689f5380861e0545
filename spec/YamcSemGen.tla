----------------------------- MODULE YamcSemGen -----------------------------
(* Test programs from YamcSem (see YamcLockGen). *)
EXTENDS YamcSem, Sequences, TLC
CONSTANTS N0, MaxN, Depth, Races, Timed, Memory
VARIABLES hist, fin
gvars == <<st, n, hist, fin>>
gview == <<st, n, fin, SubSeq(hist, IF Len(hist) > Memory THEN Len(hist) - Memory + 1 ELSE 1, Len(hist))>>
GInit == Init(N0) /\ hist = <<>> /\ fin = FALSE
Settled == \A t \in Threads : st[t].pc = "idle" \/ (st[t].pc = "call" /\ st[t].k \in {"acq", "timed"} /\ n = 0)
Ops(t) == IF st[t].pc # "idle" THEN {}
          ELSE {<<"acq", 0>>, <<"try", 0>>} \cup (IF Timed THEN {<<"timed", 0>>} ELSE {}) \cup {<<"rel", a>> : a \in {b \in 0..2 : n + b <= MaxN /\ (b = 0 => MaxN > 2)}}
Issue ==
  /\ Settled /\ ~fin /\ Len(hist) < Depth
  /\ \E t \in Threads : \E o \in Ops(t) :
       /\ st' = [st EXCEPT ![t] = [pc |-> "call", k |-> o[1], a |-> o[2], exp |-> FALSE, res |-> FALSE]]
       /\ hist' = Append(hist, {<<t, o[1], o[2]>>})
  /\ UNCHANGED <<n, fin>>
RECURSIVE Sum(_, _)
Sum(A, f) == IF A = {} THEN 0 ELSE LET t == CHOOSE t \in A : TRUE IN f[t][2] + Sum(A \ {t}, f)
Race ==
  /\ Settled /\ ~fin /\ Races > 1
  /\ \E A \in SUBSET Threads :
       /\ Cardinality(A) = Races
       /\ \A t \in A : Ops(t) # {}
       /\ \E f \in [A -> UNION {Ops(t) : t \in A}] :
            /\ \A t \in A : f[t] \in Ops(t)
            /\ n + Sum(A, f) <= MaxN
            /\ hist' = Append(hist, {<<t, f[t][1], f[t][2]>> : t \in A})
  /\ fin' = TRUE /\ UNCHANGED <<st, n>>
Elapse ==
  /\ Settled /\ ~fin /\ Timed /\ Len(hist) < Depth
  /\ \E t \in Threads : st[t].pc = "call" /\ st[t].k = "timed" /\ ~st[t].exp
       /\ st' = [st EXCEPT ![t].exp = TRUE]
       /\ hist' = Append(hist, {<<t, "tick", 0>>})
  /\ UNCHANGED <<n, fin>>
Inner == /\ ~fin /\ UNCHANGED <<hist, fin>>
         /\ \E t \in Threads : Take(t) \/ TryFail(t) \/ Post(t) \/ (st[t].exp /\ Expire(t)) \/ Return(t, st[t].res)
GNext == IF Settled /\ ~(\E t \in Threads : st[t].pc = "call" /\ st[t].exp) THEN Issue \/ Race \/ Elapse ELSE Inner
GSpec == GInit /\ [][GNext]_gvars
Emit == IF hist' # hist THEN PrintT(<<"PROG", ToString(hist')>>) ELSE TRUE
Sym == Permutations(Threads)
=============================================================================
