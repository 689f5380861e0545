--------------------------- MODULE YamcBarrierGen ---------------------------
EXTENDS YamcBarrier, Sequences, TLC
CONSTANTS E0, Depth, Races, Drop, Memory
VARIABLES hist, fin
gvars == <<st, phase, left, exp, comp, tok, hist, fin>>
(* only the distance of tokens matters *)
Rel(x) == IF x < 0 THEN -1 ELSE IF phase - x > 2 THEN 3 ELSE phase - x
gview == <<[t \in Threads |-> [st[t] EXCEPT !.ph = Rel(@)]], left, exp, comp, [t \in Threads |-> Rel(tok[t])], fin,
           SubSeq(hist, IF Len(hist) > Memory THEN Len(hist) - Memory + 1 ELSE 1, Len(hist))>>
GInit == Init(E0) /\ hist = <<>> /\ fin = FALSE
Settled == comp = "no" /\ \A t \in Threads : st[t].pc = "idle" \/ (st[t].pc = "wait" /\ st[t].ph = phase)
Ops(t) == IF st[t].pc # "idle" THEN {}
          ELSE (IF tok[t] >= 0 THEN {<<"wait", 0>>} ELSE {})
               \cup {<<"arrive", a>> : a \in {b \in 1..2 : b <= left}}
               \cup (IF left >= 1 THEN {<<"arrwait", 1>>} ELSE {})
               \cup (IF left >= 1 /\ Drop THEN {<<"drop", 1>>} ELSE {})
RECURSIVE Sum(_, _)
Sum(A, f) == IF A = {} THEN 0 ELSE LET t == CHOOSE t \in A : TRUE IN f[t][2] + Sum(A \ {t}, f)
Legal(A, f) ==
  LET s == Sum(A, f)
      e == exp - Cardinality({t \in A : f[t][1] = "drop"})
  IN s <= left \/ ((\A t \in A : f[t][2] <= 1) /\ e >= 1 /\ s <= left + e)
Issue ==
  /\ Settled /\ ~fin /\ Len(hist) < Depth
  /\ \E t \in Threads : \E o \in Ops(t) :
       /\ st' = [st EXCEPT ![t] = [pc |-> "call", k |-> o[1], a |-> o[2], ph |-> -1]]
       /\ hist' = Append(hist, {<<t, o[1], o[2]>>})
  /\ UNCHANGED <<phase, left, exp, comp, tok, fin>>
Race ==
  /\ Settled /\ ~fin /\ Races > 1
  /\ \E A \in SUBSET Threads :
       /\ Cardinality(A) = Races /\ \A t \in A : Ops(t) # {}
       /\ \E f \in [A -> UNION {Ops(t) : t \in A}] :
            /\ \A t \in A : f[t] \in Ops(t)
            /\ Legal(A, f)
            /\ hist' = Append(hist, {<<t, f[t][1], f[t][2]>> : t \in A})
  /\ fin' = TRUE /\ UNCHANGED barvars
Inner == /\ ~fin /\ UNCHANGED <<hist, fin>>
         /\ \/ \E t \in Threads : Arrive(t) \/ Begin(t) \/ Return(t) \/ (st[t].pc = "wait" /\ st[t].ph < phase /\ Pass(t))
            \/ CompStart \/ CompEnd
GNext == IF Settled THEN Issue \/ Race ELSE Inner
GSpec == GInit /\ [][GNext]_gvars
Emit == IF hist' # hist THEN PrintT(<<"PROG", ToString(hist')>>) ELSE TRUE
Sym == Permutations(Threads)
=============================================================================
