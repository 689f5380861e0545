-------------------------- MODULE YamcPlatSemTrace --------------------------
EXTENDS YamcPlatSem, TrieData
VARIABLE p
tvars == <<p, st, n, cap>>
TInit == Init(0) /\ p = 1 /\ cap = 0
Error_AGAIN == 5
Error_INVAL == 4
Step1(e) ==
  CASE e.k = "c" -> Call(e.t, e.op, e.a, e.f)
    [] e.k = "r" -> PReturn(e.t, e.f)
    [] e.k = "q" -> PQuiescent(ToSet(e.s))
    [] e.k = "k" -> Tick(ToSet(e.s))
    [] e.k = "F" -> Fault(e.t)
    [] e.k = "e" -> e.a = Error_AGAIN /\ FailError(e.t)
    \* an operation of a semaphore whose native one could not be created: try_acquire fails, the others report it
    [] e.k = "b" -> (IF e.op = "try" THEN e.a = 0 ELSE e.a = Error_INVAL) /\ UNCHANGED semvars
    [] OTHER -> FALSE
Step(e) ==
  CASE e.k = "i" -> n' = e.a /\ cap' = e.t /\ UNCHANGED st
    [] OTHER -> UNCHANGED cap /\ Step1(e)
TNext == \/ \E i \in 1..Len(Kid[p]) : p' = Kid[p][i] /\ Step(Ev[Nev[p']])
         \/ Inner[p] /\ UNCHANGED p /\ \E t \in Threads : PInternal(t) /\ UNCHANGED cap
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(p)
=============================================================================
