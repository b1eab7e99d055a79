------------------------------ MODULE CoreTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the whole out-of-order simulator against the sequential *)
(* architecture (RV32) and the platform devices (Devices).                  *)
(*                                                                          *)
(* Each trace line is one run: the state it started from, one event per     *)
(* committed (or interrupted) instruction, the device accesses the core     *)
(* issued, the predictor updates it sent, the bytes it printed and the      *)
(* statistics it reported.  A run is accepted iff its commits are the steps *)
(* of the sequential machine, in order, and everything else recorded is a   *)
(* function of those steps.                                                 *)
(*                                                                          *)
(* event: <<cycle, pc, insn, next pc, privilege, xs, cs, store, mip bits,   *)
(*          interrupted, page fault bits, device accesses>>                 *)
(***************************************************************************)
EXTENDS Devices, Float32, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, s, m, d, h, bad
vars == <<tid, l, s, m, d, h, bad>>

NoWrites == [i \in {} |-> 0]

(* h: history the comparison needs
     cyc   cycle of the previous commit
     d, m  device state and claim word before the previous commit
     st    committed device stores not yet seen at the device
     ld    device loads seen and not yet committed
     n     counters <<commits, loads, stores, conditional, indirect, return>>
     stale page tables changed and not fenced yet *)
Init ==
  /\ tid \in 1..Len(Traces)
  /\ l = 1
  /\ bad = <<>>
  /\ LET q == Traces[tid].init
     IN /\ s = [pc |-> q[1], p |-> q[2], rv |-> q[3] = 1, ra |-> q[4],
                x |-> q[5], c |-> [q[6] EXCEPT ![mip] = AndNot(@, 2176)]]
        /\ d = DevInit(<<q[7][1], q[7][2]>>, <<q[7][3], q[7][4]>>)
        /\ h = [cyc |-> 0, d0 |-> DevInit(<<q[7][1], q[7][2]>>, <<q[7][3], q[7][4]>>), d |-> DevInit(<<q[7][1], q[7][2]>>, <<q[7][3], q[7][4]>>),
                st |-> <<>>, ld |-> <<>>, n |-> [k \in 1..15 |-> 0], stale |-> FALSE]
  /\ m = [b |-> Traces[tid].mem, o |-> NoWrites]

RECURSIVE App(_, _, _)
App(f, ch, k) == IF k > Len(ch) THEN f
                 ELSE App([f EXCEPT ![ch[k] + 1] = ch[k + 1]], ch, k + 2)
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Now(e) == <<0, e[1]>>

\* ----------------------------------------------------------- the core's step
\* Cr: RV32 result plus device state and device access <<write, addr, data, f3>>
Cr(r, dd, acc) == [s |-> r.s, m |-> r.m, st |-> r.st, k |-> r.k, d |-> dd, acc |-> acc]
NoT == [now |-> <<0, 0>>, off |-> <<0, 0>>, cmp |-> <<-1, -1>>]

CoreExec(i, e) ==
  LET op == Opc(i)
      va == IF op = 3 THEN Add(s.x[Rs1(i) + 1], ImmI(i)) ELSE Add(s.x[Rs1(i) + 1], ImmS(i))
      tr == Translate(s, m, va, IF op = 3 THEN 1 ELSE 2)
      pa == tr[2]
      npc == Add(s.pc, 4)
      v == s.x[Rs2(i) + 1]
  IN IF op = 3 /\ tr[1] /\ IsDev(pa)
     THEN Cr(Res([s EXCEPT !.pc = npc,
                           !.x = SetX(s.x, Rdx(i), DevLoad(d, m, Now(e), pa, F3(i)))],
                 m, NoT, <<>>, "devload"), d, <<0, pa, 0, F3(i)>>)
     ELSE IF op = 35 /\ tr[1] /\ IsDev(pa)
     THEN LET r == IF IsModelled(pa) THEN DevStore(d, m, Now(e), pa, F3(i), v)
                   ELSE Dr(d, PlainStore(m, pa, StoreStrb(F3(i), pa % 4), Sll(v, 8 * (pa % 4))))
              strb == StoreStrb(F3(i), pa % 4)
          IN Cr(Res([s EXCEPT !.pc = npc], r.m, NoT,
                    <<pa, strb, WAnd(Sll(v, 8 * (pa % 4)), StrbMask(strb))>>, "devstore"),
                r.d, <<1, pa, v, F3(i)>>)
     ELSE LET r == Exec(s, m, NoT, i, FloatOp)
          IN IF op \notin {3, 15, 19, 23, 35, 47, 51, 55, 83, 99, 103, 111, 115}
             THEN Cr(Res(Exc(s, 2, i), m, NoT, <<>>, "illegal"), d, <<>>)
             ELSE Cr(r, d, <<>>)

CoreStep(e) ==
  LET s1 == [s EXCEPT !.c = [@ EXCEPT ![mip] = WOr(@, e[9])]]
      sel == IntSel(s1, s1.c[mip])
      f == Translate(s, m, s.pc, 0)
  IN IF sel[1] # 0 THEN Cr(Res(TrapInt(s, sel), m, NoT, <<>>, "interrupt"), d, <<>>)
     ELSE IF ~f[1] THEN Cr(Res(Exc(s, 12, s.pc), m, NoT, <<>>, "fetchfault"), d, <<>>)
     ELSE CoreExec(Rd(m, f[2]), e)

\* ------------------------------------------------------- what may be observed
\* device accesses: stores reach the device after they commit, loads before
RECURSIVE Seen(_, _, _, _)
Seen(io, k, st, ld) ==      \* -> <<ok, st, ld>>
  IF k > Len(io) THEN <<TRUE, st, ld>>
  ELSE IF io[k][1] = 1
       THEN IF st # <<>> /\ st[1] = SubSeq(io[k], 1, 4) /\ ld = <<>> THEN Seen(io, k + 1, Tail(st), ld)
            ELSE <<FALSE, st, ld>>
       ELSE IF st = <<>> THEN Seen(io, k + 1, st, Append(ld, io[k])) ELSE <<FALSE, st, ld>>
IsTimerRead(r) == r.k = "devload" /\ r.acc[2] \in {TimerLow, TimerHigh}
\* a timer read shows the instant of its device access
TimerOk(e, r, v) ==
  LET q == Seen(e[12], 1, h.st, h.ld)
  IN q[3] # <<>> /\ v = DevTime(d, <<0, q[3][1][5]>>)[IF r.acc[2] = TimerHigh THEN 1 ELSE 2]
\* value bits of a CSR read that come from the interrupt lines
MipRead(i) == Opc(i) = 115 /\ F3(i) % 4 # 0 /\ CsrIdx((i \div 1048576) % 4096) = mip
XOk(e, r, x1) ==
  \/ r.s.x = x1
  \/ /\ IsTimerRead(r)
     /\ \A k \in 1..32 : x1[k] # r.s.x[k] => k = Rdx(e[3]) + 1 /\ TimerOk(e, r, x1[k])
  \/ /\ MipRead(e[3])
     /\ \A k \in 1..32 : x1[k] # r.s.x[k] =>
           k = Rdx(e[3]) + 1 /\ AndNot(x1[k], 2176) = r.s.x[k]

\* the interrupt lines show the devices as of the previous commit or the start of the cycle
Start(e) == IF e[1] = h.cyc THEN h.d0 ELSE d
LineOk(e) ==
  LET ds == {d, h.d, Start(e)}
      ts == {DevTip(y, <<0, c>>) : y \in ds, c \in {IF e[1] > 0 THEN e[1] - 1 ELSE 0, IF e[1] > 1 THEN e[1] - 2 ELSE 0}}
  IN /\ Bit(e[9], 7) \in ts
     /\ Bit(e[9], 11) \in {DevEip(y) : y \in ds}

SameLoad(a, b) == a[1] = b[1] /\ a[2] = b[2] /\ a[4] = b[4]
\* a later load may be performed early, once everything older has finished;
\* it is dropped when an interrupt is taken on an older instruction, and
\* nothing else that flushes the pipeline lets it start
Flushes(r) == r.k = "interrupt"
\* -> <<ok, st, ld>> after this commit
DevAcc(e, r) ==
  LET q == Seen(e[12], 1, h.st, h.ld)
      left(ld) == IF Flushes(r) THEN <<>> ELSE ld
  IN IF ~q[1] THEN q
     ELSE IF r.k = "devload"
          THEN <<Len(q[3]) # 0 /\ SameLoad(q[3][1], r.acc), q[2], IF q[3] = <<>> THEN <<>> ELSE Tail(q[3])>>
     ELSE IF r.k = "devstore" THEN <<q[3] = <<>>, Append(q[2], r.acc), <<>>>>
     ELSE <<TRUE, q[2], left(q[3])>>

\* statistics of the committed stream
One(b) == IF b THEN 1 ELSE 0
Counts(e, r, i, n) ==
  LET op == Opc(i)
      f5 == F7(i) \div 4
      c1 == IF r.k = "interrupt" THEN 0 ELSE 1
      ld == IF c1 = 1 /\ r.k # "fetchfault" /\ (op = 3 \/ (op = 47 /\ f5 # 3)) THEN 1 ELSE 0
      st == IF c1 = 1 /\ r.k # "fetchfault" /\ (op = 35 \/ (op = 47 /\ f5 # 2)) THEN 1 ELSE 0
      ret == r.k = "jalr" /\ Rs1(i) = 1 /\ Rdx(i) = 0 /\ ImmI(i) = 0
      cond == r.k \in {"taken", "nottaken"}
      jalr == r.k = "jalr" /\ ~ret
      rtn == r.k = "jalr" /\ ret
      \* the prediction carried since the fetch: direction, and where to when taken
      dir == (e[13] = 1) # (r.k # "nottaken")
      wrong == dir \/ (e[13] = 1 /\ r.k # "nottaken" /\ e[14] # r.s.pc)
      add == <<c1, ld, st, One(cond), One(jalr), One(rtn),
               One(cond /\ wrong), One(jalr /\ wrong), One(rtn /\ wrong),
               One(cond /\ dir), One(cond /\ wrong /\ ~dir), One(jalr /\ dir), One(jalr /\ wrong /\ ~dir),
               One(rtn /\ dir), One(rtn /\ wrong /\ ~dir)>>
  IN [k \in 1..15 |-> n[k] + add[k]]

PfBits(k) == CASE k = "fetchfault" -> 1 [] k = "loadfault" -> 2 [] k = "storefault" -> 4 [] OTHER -> 0

Check(e, r, x1, c1) ==
  Fl(s.pc = e[2], "pc") \o
  Fl((r.k = "interrupt") = (e[10] = 1), "interrupt") \o
  Fl(r.k \in {"interrupt", "fetchfault"} \/ Rd(m, Translate(s, m, s.pc, 0)[2]) = e[3], "insn") \o
  Fl(r.s.pc = e[4], "npc") \o
  Fl(r.s.p = e[5], "priv") \o
  Fl(XOk(e, r, x1), "x") \o
  Fl([r.s.c EXCEPT ![mip] = AndNot(@, 2176)] = c1, "csr") \o
  Fl(r.k = "interrupt" \/
     IF r.st = <<>> THEN e[8] = <<>>
     ELSE e[8] # <<>> /\ e[8][1] = r.st[1] /\ e[8][2] = r.st[3], "store") \o
  Fl(r.k = "interrupt" \/ e[11] = PfBits(r.k), "pf") \o
  Fl(LineOk(e), "irqline") \o
  Fl(DevAcc(e, r)[1], "device")

\* predictor updates: one per commit, in order
BrType(i, k) ==
  LET ret == Rs1(i) = 1 /\ Rdx(i) = 0 /\ ImmI(i) = 0
  IN CASE k \in {"taken", "nottaken"} -> 0
       [] k = "jal" -> IF Rdx(i) = 1 THEN 1 ELSE 5
       [] k = "jalr" -> IF ret THEN 2 ELSE 3
       [] OTHER -> 4
TrainOk(e, r) ==
  LET u == IF l <= Len(Traces[tid].train) THEN Traces[tid].train[l] ELSE [k \in 1..7 |-> 0]
  IN r.k \in {"interrupt"} \/ Traces[tid].end = "flagged" \/
     /\ u[1] = e[2]
     /\ u[4] = BrType(e[3], r.k) \/ r.k = "fetchfault"
     /\ r.k \in {"taken", "jal", "jalr"} => u[2] = 1 /\ u[3] = r.s.pc
     /\ r.k = "nottaken" => u[2] = 0
     /\ r.k \in {"taken", "nottaken", "jalr"} => u[5] = e[13]
     /\ u[6] = u[7]

Final ==
  LET T == Traces[tid]
      q == Seen(T.lastio, 1, h.st, h.ld)
      last == IF Len(T.ev) = 0 THEN 0 ELSE T.ev[Len(T.ev)][3]
      ends == Len(T.ev) # 0 /\ T.ev[Len(T.ev)][10] = 0 /\ T.ev[Len(T.ev)][11] = 0
  IN IF T.end = "flagged" THEN <<"flagged">> ELSE
     Fl(T.uart = d.out, "uart") \o
     Fl(q[1], "device") \o
     Fl(CASE T.end = "ebreak" -> ends /\ last = EBREAK
          [] T.end = "wfi" -> ends /\ last = WFI
          [] OTHER -> T.end \in {"limit", "cycles"} /\ ~(ends /\ last \in {EBREAK, WFI}), "end") \o
     Fl(SubSeq(T.perf, 2, 7) = SubSeq(h.n, 1, 6), "stats") \o
     Fl(SubSeq(T.perf, 8, 16) = SubSeq(h.n, 7, 15), "mispredicts")

\* Outside the architecture: a misaligned program counter, the reserved
\* privilege level, reserved encodings, and translated accesses between a change
\* of the page tables and the fence that orders it.  The run is judged up to there.
IsFenceVma(i) == Opc(i) = 115 /\ F3(i) = 0 /\ F7(i) = 9
PageTable(a) == (a % 4194304) \div 16384 = 8      \* offset 20000..23FFF of a superpage
Translated == s.c[satp] < 0 /\ (s.p < 3 \/ (Bit(s.c[mstatus], 17) /\ (s.c[mstatus] \div 2048) % 4 < 3))
Outside(e) ==
  \/ s.pc % 4 # 0
  \/ s.p = 2
  \/ LET r == CoreStep(e)
     IN \/ r.k = "unimp"
        \/ r.k = "amo" /\ F3(e[3]) # 2
        \/ h.stale /\ Translated /\ r.k # "interrupt" /\ ~(r.k = "sysnop" /\ IsFenceVma(e[3]))
Stale(e, r) ==
  IF r.k = "sysnop" /\ IsFenceVma(e[3]) THEN FALSE
  ELSE h.stale \/ s.c[satp] # r.s.c[satp] \/ (r.st # <<>> /\ PageTable(r.st[1]))

Next ==
  \/ /\ bad = <<>> /\ l <= Len(Traces[tid].ev)
     /\ Outside(Traces[tid].ev[l])
     /\ l' = Len(Traces[tid].ev) + 2
     /\ UNCHANGED <<tid, s, m, d, h, bad>>
  \/ /\ bad = <<>> /\ l <= Len(Traces[tid].ev)
     /\ ~Outside(Traces[tid].ev[l])
     /\ LET e == Traces[tid].ev[l]
            r == CoreStep(e)
            x1 == App(s.x, e[6], 1)
            c1 == App(s.c, e[7], 1)
            q == DevAcc(e, r)
        IN /\ bad' = Check(e, r, x1, c1) \o Fl(TrainOk(e, r), "train")
           /\ s' = [r.s EXCEPT !.c = c1, !.x = x1]
           /\ m' = r.m
           /\ d' = r.d
           /\ h' = [cyc |-> e[1], d0 |-> Start(e), d |-> d, st |-> q[2], ld |-> q[3], n |-> Counts(e, r, e[3], h.n),
                   stale |-> Stale(e, r)]
           /\ l' = l + 1
           /\ UNCHANGED tid
  \/ /\ bad = <<>> /\ l = Len(Traces[tid].ev) + 1
     /\ bad' = Final
     /\ l' = l + 1
     /\ UNCHANGED <<tid, s, m, d, h>>
  \/ /\ l > Len(Traces[tid].ev) + 1 \/ bad # <<>>
     /\ UNCHANGED vars

Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
\* a run of the simulator under its own lockstep checker: stopped by the checker
\* although everything the core did was right
NotFlagged == bad # <<"flagged">>

View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, s |-> s, d |-> d, h |-> h,
          exp |-> IF bad = <<>> /\ l <= Len(Traces[tid].ev)
                  THEN LET e == Traces[tid].ev[l]
                           r == CoreStep(e)
                       IN <<r.k, r.s, r.st, r.acc, e, Traces[tid].train[l]>>
                  ELSE <<Final, Traces[tid].end, Traces[tid].perf, Traces[tid].uart>>]
=============================================================================
