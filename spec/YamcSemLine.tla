---------------------------- MODULE YamcSemLine ----------------------------
(* Test programs: all threads but one ask for permits, the remaining one (and
   those that were served) then release permits, a few at a time. *)
EXTENDS YamcSemGen
Called(t) == \E i \in 1..Len(hist) : \E e \in hist[i] : e[1] = t /\ e[2] \in {"acq", "timed"}
Posted == \E i \in 1..Len(hist) : \E e \in hist[i] : e[2] = "rel"
LOps(t) == IF st[t].pc # "idle" THEN {}
           ELSE (IF ~Called(t) /\ ~Posted /\ \E u \in Threads \ {t} : ~Called(u) THEN {<<"acq", 0>>} \cup (IF Timed THEN {<<"timed", 0>>} ELSE {}) ELSE {})
                \cup (IF Cardinality({u \in Threads : Called(u)}) = Cardinality(Threads) - 1 THEN {<<"rel", a>> : a \in {b \in 1..2 : n + b <= MaxN}} ELSE {})
LIssue ==
  /\ Len(hist) < Depth
  /\ \E t \in Threads : \E o \in LOps(t) :
       /\ st' = [st EXCEPT ![t] = [pc |-> "call", k |-> o[1], a |-> o[2], exp |-> FALSE, res |-> FALSE]]
       /\ hist' = Append(hist, {<<t, o[1], o[2]>>})
  /\ UNCHANGED <<n, fin>>
LNext == IF Settled /\ ~(\E t \in Threads : st[t].pc = "call" /\ st[t].exp) THEN LIssue \/ Elapse ELSE Inner
LSpec == GInit /\ [][LNext]_gvars
=============================================================================
