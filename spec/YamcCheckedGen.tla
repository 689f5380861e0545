--------------------------- MODULE YamcCheckedGen ---------------------------
(* Test programs from YamcChecked (see YamcLockGen). *)
EXTENDS YamcChecked, Sequences, TLC
CONSTANTS Pols,      \* function: object -> [rec, pol]
          WithMisuse, Timed, Depth, Races, Memory, MaxNest
VARIABLES hist, fin
gvars == <<conf, st, xo, so, alive, hist, fin>>
gview == <<st, xo, so, alive, fin, SubSeq(hist, IF Len(hist) > Memory THEN Len(hist) - Memory + 1 ELSE 1, Len(hist))>>
Conf1 == <<[rec |-> FALSE, pol |-> "x"], [rec |-> FALSE, pol |-> "x"], [rec |-> FALSE, pol |-> "x"]>>
Conf2 == <<[rec |-> FALSE, pol |-> "reader"], [rec |-> FALSE, pol |-> "x"], [rec |-> FALSE, pol |-> "writer"]>>
Conf3 == <<[rec |-> TRUE, pol |-> "x"], [rec |-> FALSE, pol |-> "writer"], [rec |-> FALSE, pol |-> "reader"]>>
Conf4 == <<[rec |-> FALSE, pol |-> "writer"], [rec |-> FALSE, pol |-> "reader"], [rec |-> TRUE, pol |-> "x"]>>
GInit == /\ Init /\ hist = <<>> /\ fin = FALSE
CInit == /\ conf = [o \in Objects |-> Pols[o]]
         /\ st = [t \in Threads |-> CIdle]
         /\ xo = [o \in Objects |-> [t \in Threads |-> 0]]
         /\ so = [o \in Objects |-> {}]
         /\ alive = Objects /\ hist = <<>> /\ fin = FALSE
Settled == \A t \in Threads : st[t].pc \in {"idle", "wait"} /\ (st[t].pc = "wait" => ~Grantable(t))
Quiet(o) == \A t \in Threads : st[t].pc # "idle" => st[t].o # o
Shar(o) == conf[o].pol # "x"
Ops(t) ==
  IF st[t].pc # "idle" THEN {}
  ELSE UNION {
    (IF WithMisuse \/ ~Owns(t, o) \/ (conf[o].rec /\ xo[o][t] < MaxNest)
     THEN {<<"lock", "X", o>>, <<"try", "X", o>>} \cup (IF Timed THEN {<<"timed", "X", o>>} ELSE {})
          \cup (IF Shar(o) THEN {<<"lock", "S", o>>, <<"try", "S", o>>} \cup (IF Timed THEN {<<"timed", "S", o>>} ELSE {}) ELSE {})
     ELSE {})
    \cup (IF WithMisuse \/ xo[o][t] > 0 THEN {<<"unlock", "X", o>>} ELSE {})
    \cup (IF Shar(o) /\ (WithMisuse \/ t \in so[o]) THEN {<<"unlock", "S", o>>} ELSE {})
    : o \in {a \in alive : xo[a][t] < MaxNest}}
    \cup UNION {IF xo[o][t] >= MaxNest THEN {<<"unlock", "X", o>>} ELSE {} : o \in alive}
Issue ==
  /\ Settled /\ ~fin /\ Len(hist) < Depth
  /\ \E t \in Threads : \E o \in Ops(t) \cup (IF WithMisuse /\ st[t].pc = "idle" /\ hist # <<>> THEN {<<"dtor", "X", b>> : b \in {a \in alive : Quiet(a)}} ELSE {}) :
       /\ st' = [st EXCEPT ![t] = [pc |-> "call", k |-> o[1], m |-> o[2], o |-> o[3], exp |-> FALSE, res |-> 0]]
       /\ hist' = Append(hist, {<<t, o[1], o[2], o[3]>>})
  /\ UNCHANGED <<conf, xo, so, alive, fin>>
Race ==
  /\ Settled /\ ~fin /\ Races > 1
  /\ \E A \in SUBSET Threads :
       /\ Cardinality(A) = Races /\ \A t \in A : Ops(t) # {}
       /\ \E f \in [A -> UNION {Ops(t) : t \in A}] :
            /\ \A t \in A : f[t] \in Ops(t)
            /\ hist' = Append(hist, {<<t, f[t][1], f[t][2], f[t][3]>> : t \in A})
  /\ fin' = TRUE /\ UNCHANGED chkvars
Elapse ==
  /\ Settled /\ ~fin /\ Timed /\ Len(hist) < Depth
  /\ \E t \in Threads : st[t].pc = "wait" /\ st[t].k = "timed" /\ ~st[t].exp
       /\ st' = [st EXCEPT ![t].exp = TRUE] /\ hist' = Append(hist, {<<t, "tick", "", 0>>})
  /\ UNCHANGED <<conf, xo, so, alive, fin>>
Inner == /\ ~fin /\ UNCHANGED <<hist, fin>>
         /\ \E t \in {u \in Threads : st[u].pc # "idle"} : \/ Detected(t) \/ Destroy(t) \/ Reenter(t) \/ (Grantable(t) /\ Grant(t)) \/ Release(t)
                               \/ (st[t].k = "try" /\ Fail(t)) \/ (st[t].exp /\ Fail(t)) \/ Report(t)
                               \/ (Wait(t) /\ ~(st[t].k = "lock" /\ ClosesCycle(t, Waits))) \/ Return(t, st[t].res)
GNext == IF Settled /\ ~(\E t \in Threads : st[t].pc = "wait" /\ st[t].exp) THEN Issue \/ Race \/ Elapse ELSE Inner
GSpec == CInit /\ [][GNext]_gvars
Emit == IF hist' # hist THEN PrintT(<<"PROG", ToString(hist')>>) ELSE TRUE
Sym == Permutations(Threads)
=============================================================================
