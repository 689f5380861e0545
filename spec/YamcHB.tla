------------------------------- MODULE YamcHB -------------------------------
(***************************************************************************)
(* Happens-before of the C++ memory model, as vector clocks.               *)
(*                                                                         *)
(*   vc[t]   what thread t knows of every thread's past                    *)
(*   out[l]  what an acquisition of l learns: for a mutex the past of its  *)
(*           releases, for an atomic object the past released together     *)
(*           with its current value (its release sequence)                 *)
(*   sout[l] the past of the shared releases of l (reader unlocks), which  *)
(*           only an exclusive acquisition learns                          *)
(*   pend[t] learned by relaxed loads, effective with an acquire fence     *)
(*   fenc[t] the past at the last release fence, given away by relaxed     *)
(*           stores                                                        *)
(*   wr[x]   the last write of plain memory x: its thread and time         *)
(*   rd[x]   the last reads of plain memory x                              *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANT Threads
VARIABLES vc, out, sout, pend, fenc, wr, rd
hbvars == <<vc, out, sout, pend, fenc, wr, rd>>
Zero == [t \in Threads |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Join(c, d) == [t \in Threads |-> Max(c[t], d[t])]
At(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Zero
Put(f, x, v) == (x :> v) @@ f
Empty == <<>>
HBInit == /\ vc = [t \in Threads |-> [Zero EXCEPT ![t] = 1]]
          /\ out = Empty /\ sout = Empty /\ pend = [t \in Threads |-> Zero] /\ fenc = [t \in Threads |-> Zero]
          /\ wr = Empty /\ rd = Empty
(* memory orders, numbered as in the compiler's interface *)
Acquires(mo) == mo \in {1, 2, 4, 5}
Releases(mo) == mo \in {3, 4, 5}
Advance(t, c) == [c EXCEPT ![t] = @ + 1]

(* mutexes, rwlocks, semaphores of the platform *)
Take(t, l) == vc' = [vc EXCEPT ![t] = Join(Join(@, At(out, l)), At(sout, l))] /\ UNCHANGED <<out, sout, pend, fenc, wr, rd>>
Give(t, l) == /\ out' = Put(out, l, Join(At(out, l), vc[t])) /\ vc' = [vc EXCEPT ![t] = Advance(t, @)] /\ UNCHANGED <<sout, pend, fenc, wr, rd>>
TakeS(t, l) == vc' = [vc EXCEPT ![t] = Join(@, At(out, l))] /\ UNCHANGED <<out, sout, pend, fenc, wr, rd>>
GiveS(t, l) == /\ sout' = Put(sout, l, Join(At(sout, l), vc[t])) /\ vc' = [vc EXCEPT ![t] = Advance(t, @)] /\ UNCHANGED <<out, pend, fenc, wr, rd>>
(* atomic objects; loads read the latest value *)
Learn(t, l, mo) == IF Acquires(mo) THEN [vc EXCEPT ![t] = Join(@, At(out, l))] ELSE vc
Pending(t, l, mo) == IF Acquires(mo) THEN pend ELSE [pend EXCEPT ![t] = Join(@, At(out, l))]
Gives(t, c, mo) == IF Releases(mo) THEN c[t] ELSE fenc[t]
Load(t, l, mo) == vc' = Learn(t, l, mo) /\ pend' = Pending(t, l, mo) /\ UNCHANGED <<out, sout, fenc, wr, rd>>
Store(t, l, mo) == out' = Put(out, l, Gives(t, vc, mo)) /\ vc' = [vc EXCEPT ![t] = Advance(t, @)] /\ UNCHANGED <<sout, pend, fenc, wr, rd>>
Update(t, l, mo) == LET c == Learn(t, l, mo) IN
  /\ out' = Put(out, l, Join(At(out, l), Gives(t, c, mo))) /\ pend' = Pending(t, l, mo)
  /\ vc' = [c EXCEPT ![t] = Advance(t, @)] /\ UNCHANGED <<sout, fenc, wr, rd>>
Fence(t, mo) == LET c == IF Acquires(mo) THEN [vc EXCEPT ![t] = Join(@, pend[t])] ELSE vc IN
  /\ fenc' = IF Releases(mo) THEN [fenc EXCEPT ![t] = c[t]] ELSE fenc
  /\ vc' = [c EXCEPT ![t] = Advance(t, @)] /\ UNCHANGED <<out, sout, pend, wr, rd>>
(* plain memory *)
ReadOk(t, x) == x \in DOMAIN wr => wr[x][2] <= vc[t][wr[x][1]]
WriteOk(t, x) == ReadOk(t, x) /\ \A u \in Threads : At(rd, x)[u] <= vc[t][u]
Read(t, x) == rd' = Put(rd, x, [At(rd, x) EXCEPT ![t] = vc[t][t]]) /\ UNCHANGED <<vc, out, sout, pend, fenc, wr>>
Write(t, x) == wr' = Put(wr, x, <<t, vc[t][t]>>) /\ UNCHANGED <<vc, out, sout, pend, fenc, rd>>
=============================================================================
