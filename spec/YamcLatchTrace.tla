--------------------------- MODULE YamcLatchTrace ---------------------------
EXTENDS YamcLatch, TrieData
VARIABLE p
tvars == <<p, st, c>>
TInit == Init(0) /\ p = 1
Step(e) ==
  CASE e.k = "i" -> c' = e.a /\ UNCHANGED st
    [] e.k = "c" -> Call(e.t, e.op, e.a)
    [] e.k = "r" -> Return(e.t, e.f)
    [] e.k = "q" -> Quiescent
    [] OTHER -> FALSE          \* exceptions and crashes
TNext == \/ \E i \in 1..Len(Kid[p]) : p' = Kid[p][i] /\ Step(Ev[Nev[p']])
         \/ Inner[p] /\ UNCHANGED p /\ \E t \in Threads : Internal(t)
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(p)
=============================================================================
