-------------------------- MODULE YamcScopedTrace --------------------------
(* Recorded executions of scoped_lock.  With Visible the calls on the mutexes
   are recorded too, otherwise they are inferred. *)
EXTENDS YamcScoped, TrieData
CONSTANT Visible
VARIABLE p
tvars == <<p, own, guard, st>>
TInit == Init /\ p = 1
(* a checked mutex reported a deadlock of plain lock operations *)
HandReports(t, r) == r = 2 /\ st[t].pc = "hand" /\ st[t].k = "lock" /\ Cycle(t) /\ st' = [st EXCEPT ![t] = SIdle] /\ UNCHANGED <<own, guard>>
Step(e) ==
  CASE e.k = "c" /\ e.op = "ctor" -> CallCtor(e.t, ToSet(e.s), FALSE)
    [] e.k = "c" /\ e.op = "adopt" -> IF Visible THEN (* adopted mutexes were locked before *)
                                        /\ guard' = [guard EXCEPT ![e.t] = ToSet(e.s)] /\ own' = [m \in Mutexes |-> IF m \in ToSet(e.s) THEN e.t ELSE own[m]]
                                        /\ st' = [st EXCEPT ![e.t] = [pc |-> "done", k |-> "adopt", want |-> ToSet(e.s), got |-> {}, res |-> 1]]
                                      ELSE CallCtor(e.t, ToSet(e.s), TRUE)
    [] e.k = "c" /\ e.op = "dtor" -> CallDtor(e.t)
    [] e.k = "c" -> CallHand(e.t, e.op, e.a)
    [] e.k = "u" /\ e.op = "unlock" -> Give(e.t, e.o)
    [] e.k = "u" /\ e.a = 1 -> Acq(e.t, e.o)
    [] e.k = "u" /\ e.a = 0 -> e.op = "try_lock" /\ st[e.t].pc = "acq" /\ e.o \in st[e.t].want \ st[e.t].got /\ UNCHANGED scvars
    [] e.k = "u" /\ e.a = 9 -> e.o \in st[e.t].want \ st[e.t].got /\ Fail(e.t, 9)
    [] e.k = "r" /\ e.a <= 1 -> (e.a = 1 /\ ReturnOK(e.t)) \/ ReturnHand(e.t, e.a)
    [] e.k = "r" -> IF Visible THEN ReturnError(e.t, e.a) ELSE ReturnError(e.t, e.a) \/ HandReports(e.t, e.a)
    [] e.k = "q" -> Quiescent
    [] OTHER -> FALSE
TNext == \/ \E i \in 1..Len(Kid[p]) : p' = Kid[p][i] /\ Step(Ev[Nev[p']])
         \/ ~Visible /\ Inner[p] /\ UNCHANGED p /\ \E t \in Threads : Internal(t) \/ (st[t].pc = "acq" /\ Held(t) # st[t].got /\ Cycle(t) /\ Fail(t, 2))
TSpec == TInit /\ [][TNext]_tvars
Mark == MarkNode(p)
=============================================================================
