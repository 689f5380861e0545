---------------------------- MODULE YamcHBTrace ----------------------------
(* Recorded executions as sequences of synchronisation operations and plain
   accesses: every access must be ordered after the conflicting ones. *)
EXTENDS YamcHB, TrieData
VARIABLE n
tvars == <<n, vc, out, sout, pend, fenc, wr, rd>>
TInit == HBInit /\ n = 1
Step(e) ==
  CASE e.k = "A" -> Take(e.t, e.o)
    [] e.k = "R" -> Give(e.t, e.o)
    [] e.k = "a" -> TakeS(e.t, e.o)
    [] e.k = "r" -> GiveS(e.t, e.o)
    [] e.k = "l" -> Load(e.t, e.o, e.a)
    [] e.k = "s" -> Store(e.t, e.o, e.a)
    [] e.k = "u" -> Update(e.t, e.o, e.a)
    [] e.k = "f" -> Fence(e.t, e.a)
    [] e.k = "L" -> ReadOk(e.t, e.o) /\ Read(e.t, e.o)
    [] e.k = "W" -> WriteOk(e.t, e.o) /\ Write(e.t, e.o)
    [] OTHER -> FALSE
TNext == \E i \in 1..Len(Kid[n]) : n' = Kid[n][i] /\ Step(Ev[Nev[n']])
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(n)
=============================================================================
