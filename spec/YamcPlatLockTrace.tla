------------------------- MODULE YamcPlatLockTrace -------------------------
EXTENDS YamcPlatLock, TrieData
VARIABLE n
tvars == <<n, st, q, xh, sh>>
TInit == Init /\ n = 1
Error_AGAIN == 5
Error_INVAL == 4
Step(e) ==
  CASE e.k = "c" -> CallN(e.t, e.op, e.m, e.f, e.a)
    [] e.k = "r" -> PReturn(e.t, e.f)
    [] e.k = "q" -> PQuiescent(ToSet(e.s))
    [] e.k = "k" -> Tick(ToSet(e.s))
    [] e.k = "F" -> Fault(e.t)
    [] e.k = "e" -> e.a = Error_AGAIN /\ FailError(e.t)
    \* construction of an object whose native primitive cannot be created
    [] e.k = "b" -> e.a = Error_INVAL /\ UNCHANGED lockvars
    [] OTHER -> FALSE
TNext == \/ \E i \in 1..Len(Kid[n]) : n' = Kid[n][i] /\ Step(Ev[Nev[n']])
         \/ Inner[n] /\ UNCHANGED n /\ \E t \in Threads : PInternal(t)
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(n)
=============================================================================
