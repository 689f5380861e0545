--------------------------- MODULE YamcScopedGen ---------------------------
(* Programs for scoped_lock: threads construct it over subsets of the mutexes
   while others hold some of them. *)
EXTENDS YamcScoped, Sequences, TLC
CONSTANTS Depth, Races, Memory, Own
VARIABLES hist, fin
gvars == <<own, guard, st, hist, fin>>
gview == <<own, guard, st, fin, SubSeq(hist, IF Len(hist) > Memory THEN Len(hist) - Memory + 1 ELSE 1, Len(hist))>>
GInit == Init /\ hist = <<>> /\ fin = FALSE
Blocked(t) == \/ st[t].pc = "acq" /\ st[t].got = {} /\ \E m \in st[t].want : own[m] # NoOne
              \/ st[t].pc = "hand" /\ st[t].k = "lock" /\ \A m \in st[t].want : own[m] # NoOne
Settled == \A t \in Threads : st[t].pc = "idle" \/ Blocked(t)
Ops(t) == IF st[t].pc # "idle" THEN {}
          ELSE (IF guard[t] # {} THEN {<<"dtor", {}>>}
                ELSE {<<"ctor", W>> : W \in {V \in SUBSET Mutexes : V # {} /\ (Held(t) = {} \/ (Own /\ V \cap Held(t) # {}))}} \cup (IF Held(t) # {} THEN {<<"adopt", Held(t)>>} ELSE {})
                     \cup {<<"unlock", {m}>> : m \in Held(t)})
               \cup {<<k, {m}>> : k \in {"try"}, m \in Mutexes \ Held(t)}
Do(t, o) == CASE o[1] = "ctor" -> CallCtor(t, o[2], FALSE)
              [] o[1] = "adopt" -> CallCtor(t, o[2], TRUE)
              [] o[1] = "dtor" -> CallDtor(t)
              [] OTHER -> \E m \in o[2] : CallHand(t, o[1], m)
Issue == /\ Settled /\ ~fin /\ Len(hist) < Depth /\ UNCHANGED fin
         /\ \E t \in Threads : \E o \in Ops(t) : Do(t, o) /\ hist' = Append(hist, {<<t, o[1], o[2]>>})
Race == /\ Settled /\ ~fin /\ Races > 1
        /\ \E A \in SUBSET Threads :
             /\ Cardinality(A) = Races /\ \A t \in A : Ops(t) # {}
             /\ \E f \in [A -> UNION {Ops(t) : t \in A}] :
                  /\ \A t \in A : f[t] \in Ops(t)
                  /\ \E t \in A : f[t][1] = "ctor"
                  /\ hist' = Append(hist, {<<t, f[t][1], f[t][2]>> : t \in A})
        /\ fin' = TRUE /\ UNCHANGED scvars
(* the settling of the system, all at once *)
Inner == /\ ~fin /\ UNCHANGED <<hist, fin>>
         /\ \E t \in Threads : \/ (st[t].pc = "acq" /\ \A m \in st[t].want \ st[t].got : own[m] = NoOne) /\ \E m \in st[t].want : Acq(t, m)
                               \/ st[t].pc = "acq" /\ (\E m \in st[t].want \ st[t].got : own[m] = t) /\ Fail(t, 2)
                               \/ (st[t].pc # "acq" /\ \E m \in st[t].want : Give(t, m) \/ HandTake(t, m) \/ HandFail(t, m) \/ HandGive(t, m))
                               \/ ReturnOK(t) \/ ReturnError(t, 2) \/ \E r \in {0, 1} : ReturnHand(t, r)
GNext == IF Settled THEN Issue \/ Race ELSE Inner
GSpec == GInit /\ [][GNext]_gvars
Emit == IF hist' # hist THEN PrintT(<<"PROG", ToString(hist')>>) ELSE TRUE
Sym == Permutations(Threads)
=============================================================================
