-------------------------- MODULE YamcCheckedTrace --------------------------
(* Recorded executions against YamcChecked; "i" events configure the objects. *)
EXTENDS YamcChecked, TrieData
VARIABLE p
tvars == <<p, conf, st, xo, so, alive>>
TInit == Init /\ p = 1
Step(e) ==
  CASE e.k = "i" -> conf' = [conf EXCEPT ![e.o] = [rec |-> e.f, pol |-> e.op]] /\ UNCHANGED <<st, xo, so, alive>>
    [] e.k = "c" -> Call(e.t, e.o, e.op, e.m, e.f)
    [] e.k = "r" -> Return(e.t, e.a)
    [] e.k = "q" -> Quiescent
    [] e.k = "k" -> Tick(ToSet(e.s))
    [] e.k = "a" -> Aborts(e.t)
    [] OTHER -> FALSE
TNext == \/ \E i \in 1..Len(Kid[p]) : p' = Kid[p][i] /\ Step(Ev[Nev[p']])
         \/ Inner[p] /\ UNCHANGED p /\ \E t \in Threads : Internal2(t)
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(p)
=============================================================================
