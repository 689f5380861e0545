-------------------------- MODULE YamcBarrierTrace --------------------------
EXTENDS YamcBarrier, TrieData
CONSTANT Silent     \* the completion function cannot be observed
VARIABLE p
tvars == <<p, st, phase, left, exp, comp, tok>>
TInit == Init(0) /\ p = 1
Step(e) ==
  CASE e.k = "i" -> left' = e.a /\ exp' = e.a /\ UNCHANGED <<st, phase, comp, tok>>
    [] e.k = "c" -> Call(e.t, e.op, e.a)
    [] e.k = "r" -> Return(e.t)
    [] e.k = "B" -> CompStart
    [] e.k = "E" -> CompEnd
    [] e.k = "Y" -> (e.f \/ Silent) /\ Cycle(e.t, e.a)
    [] e.k = "q" -> Quiescent
    [] OTHER -> FALSE          \* exceptions and crashes
TNext == \/ \E i \in 1..Len(Kid[p]) : p' = Kid[p][i] /\ Step(Ev[Nev[p']])
         \/ Inner[p] /\ UNCHANGED p /\ ((\E t \in Threads : Internal(t)) \/ (Silent /\ ((comp = "due" /\ CompStart) \/ (comp = "running" /\ CompEnd))))
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(p)
=============================================================================
