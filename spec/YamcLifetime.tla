---------------------------- MODULE YamcLifetime ----------------------------
(***************************************************************************)
(* An object shared by several threads and destroyed by the one that knows *)
(* that it is the last.                                                    *)
(*                                                                         *)
(* Observable part: calls on a living object, destruction, returns.  The   *)
(* object is used by a call from its start until it has nothing more to do *)
(* with the object's memory; a call that returns later than the            *)
(* destruction must be past that point.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT Threads
VARIABLES alive, in
lvars == <<alive, in>>
LInit == alive = TRUE /\ in = [t \in Threads |-> FALSE]
Call(t) == alive /\ ~in[t] /\ in' = [in EXCEPT ![t] = TRUE] /\ UNCHANGED alive
Return(t) == in[t] /\ in' = [in EXCEPT ![t] = FALSE] /\ UNCHANGED alive
Destroy(t) == alive /\ ~in[t] /\ alive' = FALSE /\ in' = [in EXCEPT ![t] = TRUE]
(* once the object is gone nobody is left inside, waiting for something *)
Quiescent == (~alive => \A t \in Threads : ~in[t]) /\ UNCHANGED lvars
=============================================================================
