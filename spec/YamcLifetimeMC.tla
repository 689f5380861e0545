--------------------------- MODULE YamcLifetimeMC ---------------------------
(***************************************************************************)
(* The design that makes immediate destruction safe: a primitive made of a *)
(* guard, a state and a condition.  Every user acquires the resource       *)
(* (waiting on the condition while it is taken), decrements the count of   *)
(* references, and releases; the last one destroys the object.  Release is *)
(* the sequence of accesses of a release operation.                        *)
(***************************************************************************)
EXTENDS YamcLifetime, TLC
CONSTANT Release
GoodOrder == <<"guard", "change", "notify", "drop">>
BadOrder == <<"guard", "change", "drop", "notify">>
VARIABLES guard, taken, sleeping, refs, pc, last
mvars == <<alive, in, guard, taken, sleeping, refs, pc, last>>
Free == 99
MInit == LInit /\ guard = Free /\ taken = FALSE /\ sleeping = {} /\ refs = Cardinality(Threads) /\ pc = [t \in Threads |-> "out"] /\ last = [t \in Threads |-> FALSE]
Goto(t, l) == pc' = [pc EXCEPT ![t] = l]
UObj == UNCHANGED <<refs, last>>
Enter(t) == pc[t] = "out" /\ Call(t) /\ Goto(t, "take") /\ UNCHANGED <<guard, taken, sleeping, refs, last>>
TakeG(t) == pc[t] = "take" /\ guard = Free /\ guard' = t /\ Goto(t, "test") /\ UNCHANGED <<alive, in, taken, sleeping>> /\ UObj
Test(t) == /\ pc[t] = "test" /\ guard = t /\ guard' = Free /\ UNCHANGED <<alive>> /\ UObj
           /\ IF taken THEN sleeping' = sleeping \cup {t} /\ Goto(t, "sleep") /\ UNCHANGED <<taken, in>>
              ELSE taken' = TRUE /\ Goto(t, "own") /\ UNCHANGED sleeping /\ in' = [in EXCEPT ![t] = FALSE]
Wake(t) == pc[t] = "sleep" /\ t \notin sleeping /\ Goto(t, "take") /\ UNCHANGED <<alive, in, guard, taken, sleeping>> /\ UObj
Spurious(t) == pc[t] = "sleep" /\ t \in sleeping /\ sleeping' = sleeping \ {t} /\ UNCHANGED <<alive, in, guard, taken, pc>> /\ UObj
Own(t) == /\ pc[t] = "own" /\ refs' = refs - 1 /\ last' = [last EXCEPT ![t] = refs = 1] /\ Goto(t, "release") /\ UNCHANGED <<alive, in, guard, taken, sleeping>>
(* pc "release" / 1, 2, ... : the accesses of the release operation *)
Rel(t, i) ==
  /\ pc[t] = (IF i = 1 THEN "release" ELSE ToString(i))
  /\ CASE Release[i] = "guard" -> guard = Free /\ guard' = t /\ UNCHANGED <<taken, sleeping>>
       [] Release[i] = "change" -> taken' = FALSE /\ UNCHANGED <<guard, sleeping>>
       [] Release[i] = "notify" -> sleeping' = {} /\ UNCHANGED <<guard, taken>>
       [] Release[i] = "drop" -> guard' = Free /\ UNCHANGED <<taken, sleeping>>
  /\ Goto(t, IF i = Len(Release) THEN "done" ELSE ToString(i + 1))
  /\ in' = [in EXCEPT ![t] = TRUE] /\ UNCHANGED alive /\ UObj
Done(t) == pc[t] = "done" /\ Goto(t, IF last[t] THEN "destroy" ELSE "end") /\ in' = [in EXCEPT ![t] = FALSE] /\ UNCHANGED <<alive, guard, taken, sleeping>> /\ UObj
Kill(t) == pc[t] = "destroy" /\ alive' = FALSE /\ Goto(t, "end") /\ UNCHANGED <<in, guard, taken, sleeping>> /\ UObj
Prog(t) == Enter(t) \/ TakeG(t) \/ Test(t) \/ Wake(t) \/ Own(t) \/ (\E i \in 1..Len(Release) : Rel(t, i)) \/ Done(t) \/ Kill(t)
MNext == \E t \in Threads : Prog(t) \/ Spurious(t)
MSpec == MInit /\ [][MNext]_mvars /\ \A t \in Threads : SF_mvars(Prog(t))
(* every step from these places touches the object's memory *)
Touches(t) == \/ pc[t] \in {"take", "test", "sleep", "own", "release"}
              \/ \E i \in 2..Len(Release) : pc[t] = ToString(i)
Safe == ~alive => \A t \in Threads : ~Touches(t)
OneOwner == Cardinality({t \in Threads : pc[t] \in {"own", "release"}}) <= 1
Destroyed == <>~alive
=============================================================================
