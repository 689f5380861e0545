------------------------- MODULE YamcSharedLockGen -------------------------
(* Call sequences for shared_lock: every operation in every state, with every
   outcome of the mutex's own operations. *)
EXTENDS YamcSharedLock, Sequences, TLC
CONSTANTS Depth, Memory, MaxRaw
VARIABLES hist, fin
gvars == <<slot, hold, raw, cur, hist, fin>>
gview == <<slot, raw, cur, fin, SubSeq(hist, IF Len(hist) > Memory THEN Len(hist) - Memory + 1 ELSE 1, Len(hist))>>
GInit == Init /\ hist = <<>> /\ fin = FALSE
Outs(k) == IF k \in {"unlock", "lock", "lockctor"} THEN {OK, THROWN} ELSE IF k \in {"dtor", "moveassign"} THEN {OK} ELSE {OK, FALS, THROWN}
Kinds1 == {"default", "unlock", "release", "dtor"} \cup LockOps
Kinds2 == {"movector", "moveassign", "swap", "stdswap"}
Choices == {<<k, s, 0, 0>> : k \in Kinds1, s \in Slots} \cup {<<k, s, s2, 0>> : k \in Kinds2, s \in Slots, s2 \in Slots} \cup {<<k, s, 0, m>> : k \in Ctors, s \in Slots, m \in Mutexes}
Issue ==
  /\ cur.pc = "idle" /\ Len(hist) < Depth /\ ~fin
  /\ \/ \E c \in Choices : /\ Call(c[1], c[2], c[3], c[4], Len(hist))
                           (* assigning an owning lock to itself has two outcomes: end there *)
                           /\ fin' = (c[1] = "moveassign" /\ c[2] = c[3] /\ slot[c[2]].owns)
                           /\ IF cur'.pc = "mutex" THEN \E out \in Outs(c[1]) : hist' = Append(hist, <<c[1], c[2], c[3], c[4], out>>)
                                                   ELSE hist' = Append(hist, <<c[1], c[2], c[3], c[4], 1>>)
     \/ \E m \in Mutexes, d \in {1, 0 - 1} : raw[m] + d <= MaxRaw /\ ByHand(m, d) /\ UNCHANGED fin /\ hist' = Append(hist, <<"hand", 0, 0, m, d>>)
Go == /\ cur.pc # "idle" /\ UNCHANGED <<hist, fin>>
      /\ LET h == hist[Len(hist)] IN
         \/ cur.pc = "mutex" /\ Mutex(Method(cur.k), cur.m, cur.arg, h[5])
         \/ Return(cur.res)
GSpec == GInit /\ [][Issue \/ Go]_gvars
Emit == IF hist' # hist THEN PrintT(<<"PROG", ToString(hist')>>) ELSE TRUE
(* the specification by itself *)
MCSpec == GSpec
=============================================================================
