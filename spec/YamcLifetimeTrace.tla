------------------------- MODULE YamcLifetimeTrace -------------------------
EXTENDS YamcLifetime, TrieData
VARIABLE n
tvars == <<n, alive, in>>
TInit == LInit /\ n = 1
Step(e) ==
  CASE e.k = "c" /\ e.op = "dtor" -> Destroy(e.t)
    [] e.k = "c" -> Call(e.t)
    [] e.k = "r" -> Return(e.t)
    [] e.k = "q" -> Quiescent
    [] OTHER -> FALSE         \* a crash, an error reported, an access to the destroyed object
TNext == \E i \in 1..Len(Kid[n]) : n' = Kid[n][i] /\ Step(Ev[Nev[n']])
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(n)
=============================================================================
