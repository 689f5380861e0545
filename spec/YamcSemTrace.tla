---------------------------- MODULE YamcSemTrace ----------------------------
(* Checks recorded executions, merged into a trie, against YamcSem.  The first
   event of every execution, "i", gives the initial number of permits. *)
EXTENDS YamcSem, TrieData
VARIABLE p
tvars == <<p, st, n>>
TInit == Init(0) /\ p = 1
Step(e) ==
  CASE e.k = "i" -> n' = e.a /\ UNCHANGED st
    [] e.k = "c" -> Call(e.t, e.op, e.a, e.f)
    [] e.k = "r" -> Return(e.t, e.f)
    [] e.k = "q" -> Quiescent(ToSet(e.s))
    [] e.k = "k" -> Tick(ToSet(e.s))
    [] e.k = "e" -> Throws(e.t)
    [] e.k = "x" -> Crash
    [] OTHER -> FALSE
TNext == \/ \E i \in 1..Len(Kid[p]) : p' = Kid[p][i] /\ Step(Ev[Nev[p']])
         \/ Inner[p] /\ UNCHANGED p /\ \E t \in Threads : Internal(t)
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(p)
=============================================================================
