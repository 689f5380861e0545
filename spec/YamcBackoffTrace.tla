-------------------------- MODULE YamcBackoffTrace --------------------------
EXTENDS YamcBackoff, TrieData
VARIABLE n
tvars == <<n, pol, ini, st, open, since, gap, uses, extra>>
TInit == BInit("busy", 0) /\ n = 1
Step(e) ==
  CASE e.k = "p" -> /\ pol' = e.op /\ ini' = e.a /\ st' = "idle" /\ open' = TRUE /\ since' = 0 /\ gap' = 0 /\ uses' = 0 /\ extra' = 0
    [] e.k = "c" -> Call(e.a = 0)
    [] e.k = "f" -> Fail(e.a)
    [] e.k = "y" -> Yield
    [] e.k = "w" -> Consult(e.a)
    [] e.k = "o" -> Other(TRUE)
    [] e.k = "g" -> Other(FALSE)
    [] e.k = "d" -> Won
    [] OTHER -> FALSE
TNext == \E i \in 1..Len(Kid[n]) : n' = Kid[n][i] /\ Step(Ev[Nev[n']])
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(n)
=============================================================================
