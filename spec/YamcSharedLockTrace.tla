------------------------ MODULE YamcSharedLockTrace ------------------------
EXTENDS YamcSharedLock, TrieData
VARIABLE p
tvars == <<p, slot, hold, raw, cur>>
TInit == Init /\ p = 1
Step(e) ==
  CASE e.k = "c" -> Call(e.op, e.t, e.o, e.a, e.s[1])
    [] e.k = "u" -> Mutex(e.op, e.o, e.t, e.a)
    [] e.k = "r" -> Return(e.a)
    [] e.k = "v" -> Seen(e.t, e.o, e.f)
    [] e.k = "h" -> ByHand(e.o, e.a)
    [] OTHER -> FALSE
TNext == \E i \in 1..Len(Kid[p]) : p' = Kid[p][i] /\ Step(Ev[Nev[p']])
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(p)
=============================================================================
