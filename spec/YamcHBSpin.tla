---------------------------- MODULE YamcHBSpin ----------------------------
(***************************************************************************)
(* The spinlocks' design over the memory model: a word, taken with a       *)
(* compare-exchange and given back with a store; Test makes it test before *)
(* it sets.  CasMO, FailMO and StoreMO are the memory orders.  The data    *)
(* (location 2) is written by every owner.                                 *)
(***************************************************************************)
EXTENDS YamcHB
CONSTANTS Rounds, CasMO, FailMO, StoreMO, Test
VARIABLES word, pc, round
svars == <<vc, out, sout, pend, fenc, wr, rd, word, pc, round>>
W == 1
D == 2
SInit == HBInit /\ word = 0 /\ pc = [t \in Threads |-> "out"] /\ round = [t \in Threads |-> 0]
Begin(t) == pc[t] = "out" /\ round[t] < Rounds /\ pc' = [pc EXCEPT ![t] = IF Test THEN "test" ELSE "cas"] /\ round' = [round EXCEPT ![t] = @ + 1] /\ UNCHANGED <<word, vc, out, sout, pend, fenc, wr, rd>>
Look(t) == pc[t] = "test" /\ Load(t, W, 0) /\ pc' = [pc EXCEPT ![t] = IF word = 0 THEN "cas" ELSE "test"] /\ UNCHANGED <<word, round>>
Cas(t) == /\ pc[t] = "cas" /\ UNCHANGED round
          /\ IF word = 0 THEN word' = 1 /\ Update(t, W, CasMO) /\ pc' = [pc EXCEPT ![t] = "in"]
             ELSE word' = word /\ Load(t, W, FailMO) /\ pc' = [pc EXCEPT ![t] = IF Test THEN "test" ELSE "cas"]
Use(t) == pc[t] = "in" /\ Write(t, D) /\ pc' = [pc EXCEPT ![t] = "leave"] /\ UNCHANGED <<word, round>>
Leave(t) == pc[t] = "leave" /\ word' = 0 /\ Store(t, W, StoreMO) /\ pc' = [pc EXCEPT ![t] = "out"] /\ UNCHANGED round
SNext == \E t \in Threads : Begin(t) \/ Look(t) \/ Cas(t) \/ Use(t) \/ Leave(t)
SSpec == SInit /\ [][SNext]_svars
Exclusion == \A t, u \in Threads : pc[t] \in {"in", "leave"} /\ pc[u] \in {"in", "leave"} => t = u
Published == \A t \in Threads : pc[t] = "in" => WriteOk(t, D)
=============================================================================
