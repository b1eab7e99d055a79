-------------------------------- MODULE CsrMC --------------------------------
(***************************************************************************)
(* Every order of CSR writes, traps, returns, interrupts and line changes   *)
(* over a few significant bits of each register.                            *)
(***************************************************************************)
EXTENDS CsrUnit, TLC
CONSTANTS Writes,   \* <<register, command, data>> that programs use
          Lines,    \* <<ext valid, ext, timer valid, timer>>
          Deleg     \* initial <<medeleg, mideleg>>
VARIABLES u, ev
vars == <<u, ev>>

C0(d) == [k \in 1..21 |-> CASE k = mtvec -> 4097 [] k = stvec -> 8193 [] k = medeleg -> d[1] [] k = mideleg -> d[2]
                            [] k = mstatus -> 0 [] OTHER -> 0]
Init == u \in {[s |-> [pc |-> 0, c |-> C0(d), p |-> 3], w |-> <<>>] : d \in Deleg} /\ ev = 0

NoX == <<0, 0, 0, 0, 0, 0>>
NoLine == <<0, 0, 0, 0>>
Execute == /\ u.w = <<>>
           /\ \E w \in Writes : u' = CycleOf(u, <<1, w[1], w[2], 1, 1, w[3]>>, <<0, 0, 0>>, NoLine)
           /\ ev' = 0
Change == \E j \in Lines : u' = CycleOf(u, NoX, <<0, 0, 0>>, j) /\ ev' = 0
Retiring == \E e \in 1..10, j \in Lines \cup {NoLine} :
              /\ e = 9 <=> Requested(u.s)
              /\ e = 1 => u.w # <<>>
              /\ u.s.p = 0 => e \notin {3, 4}
              /\ u.s.p = 1 => e # 3
              /\ e \in {6, 7} => u.s.p # 3       \* faults only where translation is on
              /\ u' = CycleOf(u, NoX, <<e, 64, 5>>, j)
              /\ ev' = e
Next == Execute \/ Change \/ Retiring
Spec == Init /\ [][Next]_vars

c == u.s.c
Views == /\ c[sstatus] = WAnd(c[mstatus], SstatusMask)
         /\ c[sie] = WAnd(c[mie], SieMask) /\ c[sip] = WAnd(c[mip], SieMask)
         /\ AndNot(c[mie], MieMask) = 0 /\ AndNot(c[mip], MieMask) = 0
Legal == u.s.p \in {0, 1, 3} /\ Mpp(c[mstatus]) \in {0, 1, 3}
\* an interrupt is only requested where it can be taken, and then one is selected that is pending, enabled and routed there
Irq == LET sel == IntSel(u.s, c[mip]) IN
       sel[1] # 0 =>
         /\ sel[1] >= u.s.p
         /\ (sel[1] = 3 /\ u.s.p = 3) => Bit(c[mstatus], 3)
         /\ (sel[1] = 1 /\ u.s.p = 1) => Bit(c[mstatus], 1)
         /\ sel[1] = 3 => (Bit(c[mip], sel[2]) /\ Bit(c[mie], sel[2]) /\ ~Bit(c[mideleg], sel[2]))
         /\ sel[1] = 1 => \E b \in {sel[2], sel[2] + 2} : Bit(c[mip], b) /\ Bit(c[mie], b)
         /\ sel[2] \in (IF sel[1] = 3 THEN {3, 7, 11} ELSE {1, 5, 9})
\* an undelegated machine interrupt below M cannot be masked by the lower mode
Unmaskable == \A b \in {3, 7, 11} : (u.s.p < 3 /\ Bit(c[mip], b) /\ Bit(c[mie], b) /\ ~Bit(c[mideleg], b)) =>
                                      IntSel(u.s, c[mip])[1] = 3
\* a return undoes the entry
Undo == /\ LET t == DoMret(TrapM(u.s, 2, 0)) IN
             /\ t.p = u.s.p /\ t.pc = u.s.pc
             /\ Bit(t.c[mstatus], 3) = Bit(c[mstatus], 3) /\ Bit(t.c[mstatus], 1) = Bit(c[mstatus], 1)
             /\ Bit(t.c[mstatus], 8) = Bit(c[mstatus], 8)
        /\ u.s.p < 3 => LET t == DoSret(TrapS(u.s, 2, 0)) IN
             /\ t.p = u.s.p /\ t.pc = u.s.pc
             /\ Bit(t.c[mstatus], 3) = Bit(c[mstatus], 3) /\ Bit(t.c[mstatus], 1) = Bit(c[mstatus], 1)
             /\ Mpp(t.c[mstatus]) = Mpp(c[mstatus])
\* transitions
Trap(e) == e \in {2, 5, 6, 7, 8, 9}
Held == [][LET o == u.s  n == u'.s  e == ev' IN
  /\ Trap(e) => (n.p >= o.p /\ n.p > 0)
  /\ (Trap(e) /\ n.p = 3) => (n.c[mepc] = 64 /\ ~Bit(n.c[mstatus], 3) /\ Mpp(n.c[mstatus]) = o.p /\ Bit(n.c[mstatus], 7) = Bit(o.c[mstatus], 3)
                              /\ n.c[sepc] = o.c[sepc] /\ n.c[scause] = o.c[scause] /\ n.c[stval] = o.c[stval])
  /\ (Trap(e) /\ n.p = 1) => (n.c[sepc] = 64 /\ ~Bit(n.c[mstatus], 1) /\ Bit(n.c[mstatus], 8) = (o.p = 1) /\ Bit(n.c[mstatus], 3) = Bit(o.c[mstatus], 3)
                              /\ n.c[mepc] = o.c[mepc] /\ n.c[mcause] = o.c[mcause] /\ n.c[mtval] = o.c[mtval])
  /\ (Trap(e) /\ n.p = 1 /\ e # 9) => Bit(o.c[medeleg], n.c[scause])
  /\ (e = 9) <=> (Trap(e) /\ (IF n.p = 3 THEN n.c[mcause] ELSE n.c[scause]) < 0)
  /\ e \in {3, 4} => n.p <= o.p
  /\ e \in {0, 10} => \A k \in (1..21) \ {mip, sip} : n.c[k] = o.c[k]
  /\ e \in {0, 1, 10} => n.p = o.p
  /\ e # 0 => u'.w = <<>>
  /\ e = 0 => (u'.w = u.w \/ u.w = <<>>)
  /\ e # 1 => \A k \in {mtvec, stvec, mie, sie, medeleg, mideleg, satp, mscratch, sscratch} : n.c[k] = o.c[k]]_vars
\* saved pc, cause and value are written by traps only and decide nothing but the return address
View == <<u.w, u.s.p, [k \in (1..21) \ {mepc, sepc, mcause, scause, mtval, stval} |-> c[k]]>>

MCWrites == {<<mie, 1, 160>>, <<mie, 3, 128>>, <<sie, 2, 32>>, <<sie, 3, 32>>, <<mip, 3, 32>>, <<sip, 2, 32>>,
             <<mstatus, 1, 0>>, <<mstatus, 2, 8>>, <<mstatus, 3, 8>>, <<mstatus, 1, 6144>>, <<mstatus, 1, 2048>>, <<sstatus, 2, 2>>,
             <<sstatus, 3, 258>>, <<medeleg, 1, 0>>}
MCLines == {<<0, 0, 1, 1>>, <<0, 0, 1, 0>>}
MCDeleg == {<<0, 0>>, <<45828, 0>>, <<45828, 128>>}
QWrites == {<<mie, 1, 160>>, <<sie, 3, 32>>, <<sip, 2, 32>>, <<mstatus, 2, 8>>, <<mstatus, 1, 0>>, <<mstatus, 1, 2048>>, <<sstatus, 2, 2>>}
QDeleg == {<<0, 0>>, <<45828, 128>>}
=============================================================================
