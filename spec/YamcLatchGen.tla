---------------------------- MODULE YamcLatchGen ----------------------------
EXTENDS YamcLatch, Sequences, TLC
CONSTANTS C0, Depth, Races, Memory
VARIABLES hist, fin
gvars == <<st, c, hist, fin>>
gview == <<st, c, fin, SubSeq(hist, IF Len(hist) > Memory THEN Len(hist) - Memory + 1 ELSE 1, Len(hist))>>
GInit == Init(C0) /\ hist = <<>> /\ fin = FALSE
Settled == \A t \in Threads : st[t].pc = "idle" \/ (st[t].pc = "wait" /\ c > 0)
Ops(t) == IF st[t].pc # "idle" THEN {}
          ELSE {<<"try", 0>>, <<"wait", 0>>} \cup {<<k, a>> : k \in {"cdown", "arrwait"}, a \in {b \in 0..2 : b <= c}}
Issue ==
  /\ Settled /\ ~fin /\ Len(hist) < Depth
  /\ \E t \in Threads : \E o \in Ops(t) :
       /\ st' = [st EXCEPT ![t] = [pc |-> "call", k |-> o[1], a |-> o[2], res |-> FALSE]]
       /\ hist' = Append(hist, {<<t, o[1], o[2]>>})
  /\ UNCHANGED <<c, fin>>
RECURSIVE Sum(_, _)
Sum(A, f) == IF A = {} THEN 0 ELSE LET t == CHOOSE t \in A : TRUE IN f[t][2] + Sum(A \ {t}, f)
Race ==
  /\ Settled /\ ~fin /\ Races > 1
  /\ \E A \in SUBSET Threads :
       /\ Cardinality(A) = Races /\ \A t \in A : Ops(t) # {}
       /\ \E f \in [A -> UNION {Ops(t) : t \in A}] :
            /\ \A t \in A : f[t] \in Ops(t)
            /\ Sum(A, f) <= c
            /\ hist' = Append(hist, {<<t, f[t][1], f[t][2]>> : t \in A})
  /\ fin' = TRUE /\ UNCHANGED <<st, c>>
Inner == ~fin /\ UNCHANGED <<hist, fin>> /\ \E t \in Threads : Internal(t) \/ Return(t, st[t].res)
GNext == IF Settled THEN Issue \/ Race ELSE Inner
GSpec == GInit /\ [][GNext]_gvars
Emit == IF hist' # hist THEN PrintT(<<"PROG", ToString(hist')>>) ELSE TRUE
Sym == Permutations(Threads)
=============================================================================
