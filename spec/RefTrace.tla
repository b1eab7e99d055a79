------------------------------ MODULE RefTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the reference interpreter against RV32.                 *)
(* Each line of the trace file is one run: the machine it was started in    *)
(* and, for every call of the interpreter's step function, everything that  *)
(* changed.  Every run is an initial state; a run is accepted iff every     *)
(* recorded step is the step of RV32.                                       *)
(***************************************************************************)
EXTENDS RV32, Float32, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, s, m, t, bad
vars == <<tid, l, s, m, t, bad>>

NoWrites == [i \in {} |-> 0]

Init ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ bad = <<>>
  /\ LET q == Traces[tid].init
     IN /\ s = [pc |-> q[1], p |-> q[2], rv |-> q[3] = 1, ra |-> q[4],
                x |-> q[5], c |-> q[6]]
        /\ t = [now |-> <<0, 0>>, off |-> <<q[7][1], q[7][2]>>, cmp |-> <<q[7][3], q[7][4]>>]
  /\ m = [b |-> Traces[tid].mem, o |-> NoWrites]

\* apply a flat list of changes <<i, v, i, v, ...>> (0-based i) to a tuple
RECURSIVE App(_, _, _)
App(f, ch, k) == IF k > Len(ch) THEN f
                 ELSE App([f EXCEPT ![ch[k] + 1] = ch[k + 1]], ch, k + 2)

\* words recorded as changed: flat list <<word index, v, ...>>
MemOk(m0, m1, ch) ==
  LET n == Len(ch) \div 2
      rec == {ch[2 * j - 1] : j \in 1..n}
  IN /\ \A j \in 1..n : RdI(m1, ch[2 * j - 1]) = ch[2 * j]
     /\ \A i \in DOMAIN m1.o : (i \notin rec) => RdI(m0, i) = m1.o[i]

Fl(b, name) == IF b THEN <<>> ELSE <<name>>

\* event: <<now, pc, p, rv, ra, xs, cs, mem, store, pf, end>>
Check(e, r) ==
  Fl(r.s.pc = e[2], "pc") \o
  Fl(r.s.p = e[3], "priv") \o
  Fl(r.s.rv = (e[4] = 1) /\ (r.s.rv => r.s.ra = e[5]), "reservation") \o
  Fl(r.s.x = App(s.x, e[6], 1), "x") \o
  Fl(\/ r.s.c = App(s.c, e[7], 1)
     \/ r.k \in {"fetchfault", "ebreak"} /\ SyncMip(r.s, [t EXCEPT !.now = e[1]]).c = App(s.c, e[7], 1),
     "csr") \o
  Fl(MemOk(m, r.m, e[8]), "mem") \o
  Fl(IF r.st = <<>> THEN e[9] = <<>>
     ELSE e[9] # <<>> /\ e[9][1] = r.st[1] /\ e[9][2] = r.st[3], "store") \o
  Fl(e[10] = (CASE r.k = "fetchfault" -> 1 [] r.k = "loadfault" -> 2
                [] r.k = "storefault" -> 4 [] OTHER -> 0), "pf") \o
  Fl((e[11] = 1) = (r.k = "ebreak" \/ (r.k = "wfi" /\ Traces[tid].refonly = 1)), "end")

Next ==
  \/ /\ bad = <<>> /\ l <= Len(Traces[tid].ev)
     /\ LET e == Traces[tid].ev[l]
            t0 == [t EXCEPT !.now = e[1]]
            r == Step(s, m, t0, FloatOp)
        IN /\ bad' = Check(e, r)
           /\ s' = [r.s EXCEPT !.c = App(s.c, e[7], 1)]
           /\ m' = r.m
           /\ t' = r.t
           /\ l' = l + 1
           /\ UNCHANGED tid
  \/ /\ l > Len(Traces[tid].ev) \/ bad # <<>>
     /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars

Conforms == bad = <<>>

View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, s |-> s,
          exp |-> IF bad = <<>> /\ l <= Len(Traces[tid].ev)
                  THEN LET e == Traces[tid].ev[l]
                           r == Step(s, m, [t EXCEPT !.now = e[1]], FloatOp)
                       IN <<r.k, Rd(m, Translate(s, m, s.pc, 0)[2]), r.s, r.st, e>>
                  ELSE <<>>]
=============================================================================
