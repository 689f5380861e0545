--------------------------- MODULE YamcLockTrace ---------------------------
(* Checks recorded executions, merged into a trie, against YamcLock.
   A trace is accepted iff its leaf is reached. *)
EXTENDS YamcLock, TrieData

VARIABLE n
tvars == <<n, st, q, xh, sh>>

TInit == Init /\ n = 1

Step(e) ==
  CASE e.k = "c" -> CallN(e.t, e.op, e.m, e.f, e.a)
    [] e.k = "r" -> Return(e.t, e.f)
    [] e.k = "q" -> Quiescent(ToSet(e.s))
    [] e.k = "k" -> Tick(ToSet(e.s))
    [] e.k = "e" -> Throws(e.t)
    [] e.k = "x" -> Crash
    [] OTHER -> FALSE

TNext == \/ \E i \in 1..Len(Kid[n]) : n' = Kid[n][i] /\ Step(Ev[Nev[n']])
         \/ /\ Inner[n]
            /\ UNCHANGED n
            /\ \E t \in Threads : Internal(t)

TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(n)
=============================================================================
