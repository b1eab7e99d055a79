------------------------------ MODULE DetTrace ------------------------------
(***************************************************************************)
(* Two recordings of the same input.  The machine is a function of program, *)
(* start state, configuration and fabric behaviour, so both recordings are  *)
(* the same behaviour of the specification: same step at the same cycle,    *)
(* same device traffic, same predictor updates, same statistics.            *)
(* The second recording is made by a build whose uninitialised variables    *)
(* hold a pattern, with another heap fill and another run order.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, bad
vars == <<tid, l, bad>>
Names == <<"cycle", "pc", "insn", "npc", "priv", "x", "csr", "store", "mip", "irq", "pf", "io", "predicted", "target">>
RECURSIVE Diff(_, _, _, _)
Diff(a, b, names, k) == IF k > Len(names) THEN <<>>
                        ELSE (IF a[k] = b[k] THEN <<>> ELSE <<names[k]>>) \o Diff(a, b, names, k + 1)
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ bad = <<>>
Next ==
  LET A == Traces[tid].a
      B == Traces[tid].b
  IN \/ /\ bad = <<>> /\ l <= Len(A.ev) /\ l <= Len(B.ev)
        /\ l' = l + 1
        /\ bad' = Diff(A.ev[l], B.ev[l], Names, 1)
        /\ UNCHANGED tid
     \/ /\ bad = <<>> /\ l <= Len(A.ev) + 1
        /\ l > Len(A.ev) \/ l > Len(B.ev)
        /\ l' = Len(A.ev) + 2
        /\ bad' = Fl(Len(A.ev) = Len(B.ev), "commits") \o Fl(A.end = B.end, "end") \o Fl(A.cycles = B.cycles, "cycles")
                  \o Fl(A.perf = B.perf, "perf") \o Fl(A.train = B.train, "train") \o Fl(A.uart = B.uart, "uart")
                  \o Fl(A.lastio = B.lastio, "lastio") \o Fl(A.init = B.init, "init") \o Fl(A.mem = B.mem, "mem")
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
Alias == [tid |-> tid, l |-> l, bad |-> bad,
          a |-> IF l - 1 \in 1..Len(Traces[tid].a.ev) THEN Traces[tid].a.ev[l - 1] ELSE Traces[tid].a.end,
          b |-> IF l - 1 \in 1..Len(Traces[tid].b.ev) THEN Traces[tid].b.ev[l - 1] ELSE Traces[tid].b.end]
=============================================================================
