---------------------------- MODULE YamcBackoff ----------------------------
(***************************************************************************)
(* A thread spinning on a lock, and the policy that says when it gives its *)
(* processor away.                                                         *)
(*   pol    "exp", "yield", "busy", or "user" (a user's own policy)        *)
(*   ini    the initial count of the exponential policy                    *)
(*   open   the lock is free                                               *)
(*   since  failed attempts since the last yield (or consultation of the   *)
(*          user's policy)                                                 *)
(*   gap    the count of the last interval (the first is the initial count *)
(*          and one more attempt); 0 before the first yield                *)
(*   uses   how often the user's policy was consulted during this call     *)
(*   extra  attempts that need no consultation: a spinlock that tests      *)
(*          before it tries to set (Per = 2) may try to set once before it *)
(*          begins to wait, and once more when a test has succeeded but    *)
(*          another thread was faster                                      *)
(* One consultation of the policy stands for up to Per failed attempts.    *)
(***************************************************************************)
EXTENDS Integers
CONSTANT Per
VARIABLES pol, ini, st, open, since, gap, uses, extra
bvars == <<pol, ini, st, open, since, gap, uses, extra>>

(* how many attempts fail before the next yield *)
Half(g) == IF g <= 1 THEN {1} ELSE {h \in {g \div 2, g \div 2 + 1} : h < g}
Intervals == CASE pol = "exp" -> IF gap = 0 THEN {i \in {ini, ini + 1} : i >= 1} ELSE Half(gap)
               [] pol \in {"yield", "user"} -> {1}
               [] OTHER -> {}
Patience == CHOOSE m \in Intervals : \A i \in Intervals : i <= m

BInit(p, i) == pol = p /\ ini = i /\ st = "idle" /\ open = TRUE /\ since = 0 /\ gap = 0 /\ uses = 0 /\ extra = 0
(* every call starts afresh *)
Call(o) == st = "idle" /\ st' = "spin" /\ open' = o /\ since' = 0 /\ gap' = 0 /\ uses' = 0 /\ extra' = Per - 1 /\ UNCHANGED <<pol, ini>>
(* n attempts fail in a row; after the lock was given back at most a test that raced with it *)
Fail(n) == /\ st = "spin" /\ n >= 1 /\ since' = since + n
           /\ pol # "busy" => since' <= Per * Patience + extra
           /\ open => n <= 1
           /\ UNCHANGED <<pol, ini, st, open, gap, uses, extra>>
Yield == /\ st = "spin" /\ pol \in {"exp", "yield"}
         /\ \E i \in Intervals : i <= since /\ since <= Per * i + extra /\ gap' = IF gap = 0 /\ pol = "exp" /\ ini > 0 THEN ini ELSE i
         /\ since' = 0 /\ extra' = 0 /\ UNCHANGED <<pol, ini, st, open, uses>>
(* the state handed to a user's policy belongs to this call *)
Consult(n) == /\ st = "spin" /\ pol = "user" /\ n = uses + 1 /\ 1 <= since /\ since <= Per + extra
              /\ uses' = n /\ since' = 0 /\ extra' = 0 /\ UNCHANGED <<pol, ini, st, open, gap>>
Other(o) == st = "spin" /\ open = ~o /\ open' = o /\ extra' = (IF o THEN extra ELSE extra + Per - 1) /\ UNCHANGED <<pol, ini, st, since, gap, uses>>
Won == st = "spin" /\ open /\ st' = "idle" /\ open' = FALSE /\ UNCHANGED <<pol, ini, since, gap, uses, extra>>
-----------------------------------------------------------------------------
MCInit == \E p \in {"exp", "yield", "busy"}, i \in 0..9 : BInit(p, i)
(* the attempts are counted one by one, as long as that can still matter *)
MCNext == Call(FALSE) \/ ((since < 40) /\ Fail(1)) \/ Yield
MCSpec == MCInit /\ [][MCNext]_bvars /\ WF_bvars(Fail(1) /\ since < 40) /\ WF_bvars(Yield) /\ WF_bvars(Call(FALSE))
NeverUnbounded == pol # "busy" => since <= Per * (IF ini = 0 THEN 1 ELSE ini + 1) + extra
BusyNever == pol = "busy" => gap = 0
YieldAlways == pol = "yield" => since <= Per + extra
Halving == [][gap' # gap /\ gap' # 0 /\ gap # 0 => gap' \in {gap \div 2, gap \div 2 + 1} /\ (gap > 1 => gap' < gap)]_bvars
DownToOne == (pol # "busy") => <>[](gap = 1)
=============================================================================
