-------------------------------- MODULE RV32 --------------------------------
(***************************************************************************)
(* The architecture: RV32IMA + Zicsr + Zifencei + Zba/Zbb/Zbc/Zbs (+ pack,  *)
(* packh) with M/S/U modes, Sv32 and the platform registers of the          *)
(* simulator, as one deterministic step function.                           *)
(*                                                                          *)
(* Machine state  s == [pc, x, c, p, rv, ra]                                *)
(*   x  : 32-tuple of words, x[1] is register zero                          *)
(*   c  : 21-tuple of CSR words, in the order below                         *)
(*   p  : privilege 0 (U), 1 (S), 3 (M)                                     *)
(*   rv, ra : reservation held?, reserved physical address                  *)
(* Memory m == [b, o]: b is a tuple of regions <<first word index, tuple>>, *)
(*   o a function (word index -> word) of words written since; words in     *)
(*   neither read as 0.  The word index of byte address a is (a div 4)      *)
(*   mod 2^30.                                                              *)
(* Timer t == [now, off, cmp]: 64-bit pairs; mtime is now + off.            *)
(***************************************************************************)
EXTENDS Word, FiniteSets

mtvec == 1     mepc == 2      mcause == 3   mie == 4      mip == 5
mtval == 6     mscratch == 7  mstatus == 8  mideleg == 9  medeleg == 10
sepc == 11     stvec == 12    scause == 13  sscratch == 14
stval == 15    sstatus == 16  sie == 17     sip == 18     satp == 19
mhartid == 20  misa == 21

CsrIdx(n) ==
  CASE n = 773 -> mtvec     [] n = 833 -> mepc     [] n = 834 -> mcause
    [] n = 772 -> mie       [] n = 836 -> mip      [] n = 835 -> mtval
    [] n = 832 -> mscratch  [] n = 768 -> mstatus  [] n = 771 -> mideleg
    [] n = 770 -> medeleg   [] n = 321 -> sepc     [] n = 261 -> stvec
    [] n = 322 -> scause    [] n = 320 -> sscratch [] n = 323 -> stval
    [] n = 256 -> sstatus   [] n = 260 -> sie      [] n = 324 -> sip
    [] n = 384 -> satp      [] n = 3860 -> mhartid [] n = 769 -> misa
    [] OTHER -> 0
IsTimeCsr(n) == n = 3073 \/ n = 3201

MieMask == 3003            \* 0x00000bbb
SieMask == 819             \* 0x00000333
MstatusMask == Mk(32895, 63931)   \* 0x807FF9BB
SstatusMask == Mk(32781, 57651)   \* 0x800DE133

\* memory ------------------------------------------------------------------
WIdx(a) == (a \div 4) % 1073741824
RECURSIVE BaseRd(_, _, _)
BaseRd(b, i, k) ==
  IF k > Len(b) THEN 0
  ELSE LET r == b[k]  d == i - r[1]
       IN IF d >= 0 /\ d < Len(r[2]) THEN r[2][d + 1] ELSE BaseRd(b, i, k + 1)
RdI(m, i) == IF i \in DOMAIN m.o THEN m.o[i] ELSE BaseRd(m.b, i, 1)
Rd(m, a) == RdI(m, WIdx(a))
WrI(m, i, v) == [m EXCEPT !.o = [j \in (DOMAIN m.o) \cup {i} |->
                                   IF j = i THEN v ELSE m.o[j]]]

\* timer -------------------------------------------------------------------
TimerLow == Mk(8144, 57344)      \* 0x1fd0e000
TimerHigh == TimerLow + 4
TimerCmpLow == TimerLow + 8
TimerCmpHigh == TimerLow + 12
Mtime(t) == Add64(t.now, t.off)
Mtip(t) == LeU64(t.cmp, Mtime(t))

UartBase == 268435456            \* 0x10000000
PlicClaim == Mk(3104, 4100)      \* 0x0c201004

\* Sv32 --------------------------------------------------------------------
\* type 0 fetch, 1 load, 2 store; ep effective privilege; <<ok, pa>>
LeafOk(pte, type, ep, sum, mxr) ==
  LET R == Bit(pte, 1)  W == Bit(pte, 2)  X == Bit(pte, 3)  U == Bit(pte, 4)
  IN /\ CASE type = 0 -> X
          [] type = 1 -> R \/ (mxr /\ X)
          [] OTHER -> W
     /\ ep = 0 => U
     /\ (ep = 1 /\ U) => (type # 0 /\ sum)
     /\ Bit(pte, 6)
     /\ type = 2 => Bit(pte, 7)
Invalid(pte) == ~Bit(pte, 0) \/ (~Bit(pte, 1) /\ Bit(pte, 2))
Leaf(pte) == Bit(pte, 1) \/ Bit(pte, 3)
NoTr == <<FALSE, 0>>
Walk(m, root, va, type, ep, sum, mxr) ==
  LET vpn1 == (va \div 4194304) % 1024
      vpn0 == (va \div 4096) % 1024
      p1 == Rd(m, Add(Sll(root % 1048576, 12), vpn1 * 4))
  IN IF Invalid(p1) THEN NoTr
     ELSE IF Leaf(p1)
     THEN IF LeafOk(p1, type, ep, sum, mxr) /\ (p1 \div 1024) % 1024 = 0
          THEN <<TRUE, Add(Sll((p1 \div 1048576) % 1024, 22), va % 4194304)>>
          ELSE NoTr
     ELSE LET p0 == Rd(m, Add(Sll((p1 \div 1024) % 1048576, 12), vpn0 * 4))
          IN IF Invalid(p0) \/ ~Leaf(p0) THEN NoTr
             ELSE IF LeafOk(p0, type, ep, sum, mxr)
             THEN <<TRUE, Add(Sll((p0 \div 1024) % 1048576, 12), va % 4096)>>
             ELSE NoTr

Mpp(ms) == (ms \div 2048) % 4
EffPriv(s, type) == IF type # 0 /\ Bit(s.c[mstatus], 17) THEN Mpp(s.c[mstatus]) ELSE s.p
Translate(s, m, va, type) ==
  LET ep == EffPriv(s, type) IN
  IF s.c[satp] >= 0 \/ ep = 3 THEN <<TRUE, va>>
  ELSE Walk(m, s.c[satp] % 4194304, va, type, ep,
            Bit(s.c[mstatus], 18), Bit(s.c[mstatus], 19))

\* instruction fields ------------------------------------------------------
Opc(i) == i % 128
Rdx(i) == (i \div 128) % 32
F3(i) == (i \div 4096) % 8
Rs1(i) == (i \div 32768) % 32
Rs2(i) == (i \div 1048576) % 32
F7(i) == (i \div 33554432) % 128
ImmI(i) == i \div 1048576
ImmS(i) == (i \div 33554432) * 32 + Rdx(i)
ImmB(i) == (IF i < 0 THEN -4096 ELSE 0) + ((i \div 128) % 2) * 2048
           + ((i \div 33554432) % 64) * 32 + ((i \div 256) % 16) * 2
ImmJ(i) == (IF i < 0 THEN -1048576 ELSE 0) + ((i \div 4096) % 256) * 4096
           + ((i \div 1048576) % 2) * 2048 + ((i \div 2097152) % 1024) * 2
ImmU(i) == i - (i % 4096)

ECALL == 115      EBREAK == 1048691   MRET == 807403635
SRET == 270532723 WFI == 273678451

\* arithmetic --------------------------------------------------------------
None == <<FALSE, 0>>
Val(v) == <<TRUE, v>>

AluImm(i, a) ==
  LET f3 == F3(i)  f7 == F7(i)  im == ImmI(i)  sh == Rs2(i) IN
  CASE f3 = 0 -> Val(Add(a, im))
    [] f3 = 2 -> Val(B2N(a < im))
    [] f3 = 3 -> Val(B2N(LtU(a, im)))
    [] f3 = 4 -> Val(WXor(a, im))
    [] f3 = 6 -> Val(WOr(a, im))
    [] f3 = 7 -> Val(WAnd(a, im))
    [] f3 = 1 ->
       CASE f7 = 0 -> Val(Sll(a, sh))
         [] f7 = 48 /\ sh = 0 -> Val(Clz(a))
         [] f7 = 48 /\ sh = 1 -> Val(Ctz(a))
         [] f7 = 48 /\ sh = 2 -> Val(Cpop(a))
         [] f7 = 48 /\ sh = 4 -> Val(SextB(a))
         [] f7 = 48 /\ sh = 5 -> Val(SextH(a))
         [] f7 = 20 -> Val(WOr(a, BitMask(sh)))
         [] f7 = 36 -> Val(AndNot(a, BitMask(sh)))
         [] f7 = 52 -> Val(WXor(a, BitMask(sh)))
         [] OTHER -> None
    [] OTHER ->
       CASE f7 = 0 -> Val(Srl(a, sh))
         [] f7 = 32 -> Val(Sra(a, sh))
         [] f7 = 48 -> Val(Ror(a, sh))
         [] f7 = 36 -> Val(B2N(Bit(a, sh)))
         [] f7 = 52 /\ sh = 24 -> Val(Rev8(a))
         [] f7 = 20 /\ sh = 7 -> Val(Orcb(a))
         [] OTHER -> None

MulDiv(f3, a, b) ==
  CASE f3 = 0 -> Mul(a, b)
    [] f3 = 1 -> MulH(a, b)
    [] f3 = 2 -> MulHSU(a, b)
    [] f3 = 3 -> MulHU(a, b)
    [] f3 = 4 -> DivS(a, b)
    [] f3 = 5 -> DivU(a, b)
    [] f3 = 6 -> RemS(a, b)
    [] OTHER -> RemU(a, b)

AluReg(i, a, b) ==
  LET f3 == F3(i)  f7 == F7(i)  sh == b % 32 IN
  IF f7 = 1 THEN Val(MulDiv(f3, a, b))
  ELSE
  CASE f3 = 0 ->
       CASE f7 = 0 -> Val(Add(a, b))
         [] f7 = 32 -> Val(Sub(a, b))
         [] OTHER -> None
    [] f3 = 1 ->
       CASE f7 = 0 -> Val(Sll(a, sh))
         [] f7 = 48 -> Val(Rol(a, sh))
         [] f7 = 36 -> Val(AndNot(a, BitMask(sh)))
         [] f7 = 20 -> Val(WOr(a, BitMask(sh)))
         [] f7 = 52 -> Val(WXor(a, BitMask(sh)))
         [] f7 = 5 -> Val(Clmul(a, b))
         [] OTHER -> None
    [] f3 = 2 ->
       CASE f7 = 0 -> Val(B2N(a < b))
         [] f7 = 16 -> Val(Add(Sll(a, 1), b))
         [] f7 = 5 -> Val(Clmulr(a, b))
         [] OTHER -> None
    [] f3 = 3 ->
       CASE f7 = 0 -> Val(B2N(LtU(a, b)))
         [] f7 = 5 -> Val(Clmulh(a, b))
         [] OTHER -> None
    [] f3 = 4 ->
       CASE f7 = 0 -> Val(WXor(a, b))
         [] f7 = 32 -> Val(WNot(WXor(a, b)))
         [] f7 = 16 -> Val(Add(Sll(a, 2), b))
         [] f7 = 5 -> Val(MinS(a, b))
         [] f7 = 4 -> Val(Mk(Lo(b), Lo(a)))
         [] OTHER -> None
    [] f3 = 5 ->
       CASE f7 = 0 -> Val(Srl(a, sh))
         [] f7 = 32 -> Val(Sra(a, sh))
         [] f7 = 48 -> Val(Ror(a, sh))
         [] f7 = 36 -> Val(B2N(Bit(a, sh)))
         [] f7 = 5 -> Val(MinU(a, b))
         [] OTHER -> None
    [] f3 = 6 ->
       CASE f7 = 0 -> Val(WOr(a, b))
         [] f7 = 32 -> Val(WOr(a, WNot(b)))
         [] f7 = 16 -> Val(Add(Sll(a, 3), b))
         [] f7 = 5 -> Val(MaxS(a, b))
         [] OTHER -> None
    [] OTHER ->
       CASE f7 = 0 -> Val(WAnd(a, b))
         [] f7 = 32 -> Val(AndNot(a, b))
         [] f7 = 5 -> Val(MaxU(a, b))
         [] f7 = 4 -> Val((a % 256) + (b % 256) * 256)
         [] OTHER -> None

Taken(f3, a, b) ==
  CASE f3 = 0 -> a = b
    [] f3 = 1 -> a # b
    [] f3 = 4 -> a < b
    [] f3 = 5 -> ~(a < b)
    [] f3 = 6 -> LtU(a, b)
    [] f3 = 7 -> ~LtU(a, b)
    [] OTHER -> FALSE

\* value of a load from the aligned word w at byte offset o
LoadVal(f3, w, o) ==
  LET h == Srl(w, 8 * o) IN
  CASE f3 = 0 -> SextB(h)
    [] f3 = 1 -> SextH(h)
    [] f3 = 4 -> h % 256
    [] f3 = 5 -> h % 65536
    [] OTHER -> h
\* byte strobe, already at its offset
StoreStrb(f3, o) == CASE f3 = 0 -> P2[o + 1]
                      [] f3 = 1 -> (3 * P2[o + 1]) % 16
                      [] OTHER -> (15 * P2[o + 1]) % 16

AmoVal(f5, old, b) ==
  CASE f5 = 0 -> Add(old, b)
    [] f5 = 1 -> b
    [] f5 = 4 -> WXor(old, b)
    [] f5 = 8 -> WOr(old, b)
    [] f5 = 12 -> WAnd(old, b)
    [] f5 = 16 -> MinS(old, b)
    [] f5 = 20 -> MaxS(old, b)
    [] f5 = 24 -> MinU(old, b)
    [] OTHER -> MaxU(old, b)
AmoOps == {0, 1, 4, 8, 12, 16, 20, 24, 28}

\* results of a step -------------------------------------------------------
\* s: next machine state; m: next memory; t: next timer
\* st: <<>> or <<physical address, strobe, data at offset>> of the store made
\* k: kind, for statistics and for the properties
Res(s, m, t, st, k) == [s |-> s, m |-> m, t |-> t, st |-> st, k |-> k]

SetX(x, r, v) == IF r = 0 THEN x ELSE [x EXCEPT ![r + 1] = v]

\* traps -------------------------------------------------------------------
\* take a trap to M (S) from state s
Vector(tv, cause) ==
  IF tv % 2 = 1 /\ cause < 0 THEN Add(tv - (tv % 4), 4 * (cause % 65536))
  ELSE tv - (tv % 4)
TrapM(s, cause, tval) ==
  LET ms == s.c[mstatus]
      \* MPP(12:11) := p, MPIE(7) := MIE(3), MIE(3) := 0
      cl == AndNot(ms, 6144 + 128 + 8)
      n == WOr(cl, s.p * 2048 + (IF Bit(ms, 3) THEN 128 ELSE 0))
  IN [s EXCEPT !.pc = Vector(s.c[mtvec], cause), !.p = 3,
               !.c = [s.c EXCEPT ![mepc] = s.pc, ![mcause] = cause, ![mtval] = tval,
                                 ![mstatus] = n, ![sstatus] = WAnd(n, SstatusMask)]]
TrapS(s, cause, tval) ==
  LET ss == s.c[sstatus]
      \* SPP(8) := p, SPIE(5) := SIE(1), SIE(1) := 0
      cl == AndNot(ss, 256 + 32 + 2)
      n == WOr(cl, (IF s.p = 1 THEN 256 ELSE 0) + (IF Bit(ss, 1) THEN 32 ELSE 0))
  IN [s EXCEPT !.pc = Vector(s.c[stvec], cause), !.p = 1,
               !.c = [s.c EXCEPT ![sepc] = s.pc, ![scause] = cause, ![stval] = tval,
                                 ![sstatus] = n,
                                 ![mstatus] = Merge(s.c[mstatus], n, SstatusMask)]]
\* synchronous exception with cause number n
Exc(s, n, tval) ==
  IF s.p < 3 /\ Bit(s.c[medeleg], n) THEN TrapS(s, n, tval) ELSE TrapM(s, n, tval)

DoMret(s) ==
  LET ms == s.c[mstatus]
      cl == AndNot(ms, 6144 + 8)
      n == WOr(cl, 128 + (IF Bit(ms, 7) THEN 8 ELSE 0))
  IN [s EXCEPT !.pc = s.c[mepc], !.p = Mpp(ms),
               !.c = [s.c EXCEPT ![mstatus] = n, ![sstatus] = WAnd(n, SstatusMask)]]
DoSret(s) ==
  LET ss == s.c[sstatus]
      cl == AndNot(ss, 256 + 2)
      n == WOr(cl, 32 + (IF Bit(ss, 5) THEN 2 ELSE 0))
  IN [s EXCEPT !.pc = s.c[sepc], !.p = B2N(Bit(ss, 8)),
               !.c = [s.c EXCEPT ![sstatus] = n,
                                 ![mstatus] = Merge(s.c[mstatus], n, SstatusMask)]]

\* interrupts --------------------------------------------------------------
\* the interrupt to take, 0 if none: <<target, cause number>>
PendM(s, mipv, b) == Bit(mipv, b) /\ Bit(s.c[mie], b) /\ ~Bit(s.c[mideleg], b)
                     /\ (s.p < 3 \/ Bit(s.c[mstatus], 3))
PendS(s, mipv, b) == \* b the machine-level bit; b - 2 the supervisor one
  /\ \/ Bit(mipv, b) /\ Bit(s.c[mie], b) /\ Bit(s.c[mideleg], b)
     \/ Bit(mipv, b - 2) /\ Bit(s.c[mie], b - 2)
  /\ s.p = 0 \/ (s.p = 1 /\ Bit(s.c[mstatus], 1))
IntSel(s, mipv) ==
  CASE PendM(s, mipv, 3) -> <<3, 3>>
    [] PendM(s, mipv, 7) -> <<3, 7>>
    [] PendM(s, mipv, 11) -> <<3, 11>>
    [] PendS(s, mipv, 11) -> <<1, 9>>
    [] PendS(s, mipv, 7) -> <<1, 5>>
    [] PendS(s, mipv, 3) -> <<1, 1>>
    [] OTHER -> <<0, 0>>
TrapInt(s, sel) == IF sel[1] = 3 THEN TrapM(s, MinInt + sel[2], 0)
                   ELSE TrapS(s, MinInt + sel[2], 0)

\* CSR access --------------------------------------------------------------
CsrRead(s, k) == s.c[k]
CsrWrite(c, k, v) ==
  CASE k = mie -> LET n == WAnd(v, MieMask)
                  IN [c EXCEPT ![mie] = n, ![sie] = WAnd(n, SieMask)]
    [] k = sie -> LET n == Merge(c[mie], v, SieMask)
                  IN [c EXCEPT ![mie] = n, ![sie] = WAnd(n, SieMask)]
    [] k = mip -> LET n == WAnd(v, MieMask)
                  IN [c EXCEPT ![mip] = n, ![sip] = WAnd(n, SieMask)]
    [] k = sip -> LET n == Merge(c[mip], v, SieMask)
                  IN [c EXCEPT ![mip] = n, ![sip] = WAnd(n, SieMask)]
    [] k = mstatus -> LET n == Merge(c[mstatus], v, MstatusMask)
                      IN [c EXCEPT ![mstatus] = n, ![sstatus] = WAnd(n, SstatusMask)]
    [] k = sstatus -> LET n == Merge(c[mstatus], v, SstatusMask)
                      IN [c EXCEPT ![mstatus] = n, ![sstatus] = WAnd(n, SstatusMask)]
    [] OTHER -> [c EXCEPT ![k] = v]

\* stores and the registers of the platform ---------------------------------
\* store of bytes (strobe, data at offset) to physical address a
SetMip(s, v) == [s EXCEPT !.c = [s.c EXCEPT ![mip] = v, ![sip] = WAnd(v, SieMask)]]
PlainStore(m, a, strb, data) == WrI(m, WIdx(a), Merge(Rd(m, a), data, StrbMask(strb)))
StoreEff(s, m, t, a, strb, data, k) ==
  LET st == <<a, strb, data>>
      s1 == IF s.rv /\ s.ra = a THEN [s EXCEPT !.rv = FALSE] ELSE s
      b0 == Srl(data, 8 * (a % 4)) % 256
      m1 == PlainStore(m, a, strb, data)
      u == Rd(m1, UartBase)
      now == Mtime(t)
  IN CASE a - (a % 4) = TimerLow ->
            Res(s1, m, [t EXCEPT !.off = Sub64(<<now[1], data>>, t.now)], st, k)
       [] a - (a % 4) = TimerHigh ->
            Res(s1, m, [t EXCEPT !.off = Sub64(<<data, now[2]>>, t.now)], st, k)
       [] a - (a % 4) = TimerCmpLow -> Res(s1, m, [t EXCEPT !.cmp = <<@[1], data>>], st, k)
       [] a - (a % 4) = TimerCmpHigh -> Res(s1, m, [t EXCEPT !.cmp = <<data, @[2]>>], st, k)
       [] a = UartBase ->
            Res(s1, WrI(m1, WIdx(UartBase), u - (u % 256)), t, st, k)
       [] a = UartBase + 1 /\ b0 = 7 ->
            Res(SetMip(s1, WOr(s1.c[mip], 2048)),
                WrI(WrI(m1, WIdx(PlicClaim), 10), WIdx(UartBase), AndNot(u, 983040)), t, st, k)
       [] a = UartBase + 1 /\ b0 = 5 ->
            Res(s1, WrI(m1, WIdx(UartBase), WOr(AndNot(u, 983040), 196608)), t, st, k)
       [] a = PlicClaim /\ b0 = 10 ->
            Res(SetMip(s1, AndNot(s1.c[mip], 2048)), WrI(m1, WIdx(PlicClaim), 0), t, st, k)
       [] OTHER -> Res(s1, m1, t, st, k)

LoadWord(m, t, a) ==
  CASE a = TimerLow -> Mtime(t)[2]
    [] a = TimerHigh -> Mtime(t)[1]
    [] a = TimerCmpLow -> t.cmp[2]
    [] a = TimerCmpHigh -> t.cmp[1]
    [] OTHER -> Rd(m, a)

\* one instruction, already fetched, no interrupt ---------------------------
\* FloatOp(i, a, b, c) of module Float32 is passed in by the user of Exec
Exec(s, m, t, i, FloatOp(_, _, _, _)) ==
  LET op == Opc(i)
      r1 == s.x[Rs1(i) + 1]
      r2 == s.x[Rs2(i) + 1]
      npc == Add(s.pc, 4)
      next == [s EXCEPT !.pc = npc]
      wr(v, k) == Res([next EXCEPT !.x = SetX(s.x, Rdx(i), v)], m, t, <<>>, k)
      nop(k) == Res(next, m, t, <<>>, k)
  IN
  CASE op = 19 -> LET v == AluImm(i, r1) IN IF v[1] THEN wr(v[2], "alui") ELSE nop("unimp")
    [] op = 51 -> LET v == AluReg(i, r1, r2)
                  IN IF v[1] THEN wr(v[2], IF F7(i) = 1 THEN "muldiv" ELSE "alu") ELSE nop("unimp")
    [] op = 55 -> wr(ImmU(i), "lui")
    [] op = 23 -> wr(Add(s.pc, ImmU(i)), "auipc")
    [] op = 111 -> Res([s EXCEPT !.pc = Add(s.pc, ImmJ(i)), !.x = SetX(s.x, Rdx(i), npc)],
                       m, t, <<>>, "jal")
    [] op = 103 -> LET d == Add(r1, ImmI(i))
                   IN Res([s EXCEPT !.pc = d - (d % 2), !.x = SetX(s.x, Rdx(i), npc)],
                          m, t, <<>>, "jalr")
    [] op = 99 -> IF Taken(F3(i), r1, r2)
                  THEN Res([s EXCEPT !.pc = Add(s.pc, ImmB(i))], m, t, <<>>, "taken")
                  ELSE nop("nottaken")
    [] op = 3 ->
         LET va == Add(r1, ImmI(i))
             tr == Translate(s, m, va, 1)
             pa == tr[2]
         IN IF ~tr[1] THEN Res(Exc(s, 13, va), m, t, <<>>, "loadfault")
            ELSE wr(LoadVal(F3(i), LoadWord(m, t, pa - (pa % 4)), pa % 4), "load")
    [] op = 35 ->
         LET va == Add(r1, ImmS(i))
             tr == Translate(s, m, va, 2)
             pa == tr[2]
             o == pa % 4
         IN IF ~tr[1] THEN Res(Exc(s, 15, va), m, t, <<>>, "storefault")
            ELSE LET strb == StoreStrb(F3(i), o)
                 IN StoreEff(next, m, t, pa, strb, WAnd(Sll(r2, 8 * o), StrbMask(strb)), "store")
    [] op = 47 ->
         LET f5 == F7(i) \div 4
             va == r1
             t1 == Translate(s, m, va, 1)
             t2 == Translate(s, m, va, 2)
             pa == IF f5 = 2 THEN t1[2] ELSE t2[2]
             old == Rd(m, pa)
         IN CASE f5 = 2 ->
                   IF ~t1[1] THEN Res(Exc(s, 13, va), m, t, <<>>, "loadfault")
                   ELSE Res([next EXCEPT !.x = SetX(s.x, Rdx(i), old), !.rv = TRUE, !.ra = pa],
                            m, t, <<>>, "lr")
              [] f5 = 3 ->
                   IF ~t2[1] THEN Res(Exc(s, 15, va), m, t, <<>>, "storefault")
                   ELSE IF s.rv /\ s.ra = pa
                   THEN StoreEff([next EXCEPT !.x = SetX(s.x, Rdx(i), 0), !.rv = FALSE],
                                 m, t, pa, 15, r2, "scok")
                   ELSE Res([next EXCEPT !.x = SetX(s.x, Rdx(i), 1), !.rv = FALSE],
                            m, t, <<>>, "scfail")
              [] f5 \in AmoOps ->
                   IF ~t1[1] \/ ~t2[1] THEN Res(Exc(s, 15, va), m, t, <<>>, "storefault")
                   ELSE StoreEff([next EXCEPT !.x = SetX(s.x, Rdx(i), old)],
                                 m, t, pa, 15, AmoVal(f5, old, r2), "amo")
              [] OTHER -> nop("unimp")
    [] op = 15 -> nop("fence")
    [] op = 115 ->
         IF i = ECALL THEN Res(Exc(s, CASE s.p = 0 -> 8 [] s.p = 1 -> 9 [] OTHER -> 11, 0),
                               m, t, <<>>, "ecall")
         ELSE IF i = MRET THEN Res(DoMret(s), m, t, <<>>, "mret")
         ELSE IF i = SRET THEN Res(DoSret(s), m, t, <<>>, "sret")
         ELSE IF i = EBREAK THEN nop("ebreak")
         ELSE IF i = WFI THEN nop("wfi")
         ELSE IF F3(i) % 4 = 0 THEN nop("sysnop")
         ELSE LET n == (i \div 1048576) % 4096
                  k == CsrIdx(n)
                  f3 == F3(i)
                  w == IF f3 >= 4 THEN Rs1(i) ELSE r1
              IN IF IsTimeCsr(n) THEN Res(Exc(s, 2, i), m, t, <<>>, "illegal")
                 ELSE IF k = 0 THEN nop("unkcsr")
                 ELSE LET old == s.c[k]
                          nv == CASE f3 % 4 = 1 -> w
                                  [] f3 % 4 = 2 -> WOr(old, w)
                                  [] OTHER -> AndNot(old, w)
                          we == f3 % 4 = 1 \/ Rs1(i) # 0
                          s1 == [next EXCEPT !.x = SetX(s.x, Rdx(i), old)]
                      IN Res(IF we THEN [s1 EXCEPT !.c = CsrWrite(s.c, k, nv)] ELSE s1,
                             m, t, <<>>, IF we THEN "csrw" ELSE "csrr")
    [] op \in {83, 67, 71, 75, 79} ->
         wr(FloatOp(i, r1, r2, s.x[((i \div 134217728) % 32) + 1]), "fp")
    [] OTHER -> nop("unimp")

\* the timer's view of mip is refreshed before anything else
SyncMip(s, t) == SetMip(s, IF Mtip(t) THEN WOr(s.c[mip], 128) ELSE AndNot(s.c[mip], 128))

(***************************************************************************)
(* One step of the sequential machine.                                      *)
(***************************************************************************)
Step(s0, m, t, FloatOp(_, _, _, _)) ==
  LET f == Translate(s0, m, s0.pc, 0)
      s == SyncMip(s0, t)
      i == Rd(m, f[2])
  IN IF ~f[1] THEN Res(Exc(s0, 12, s0.pc), m, t, <<>>, "fetchfault")
     ELSE IF i = EBREAK THEN Res([s0 EXCEPT !.pc = Add(@, 4)], m, t, <<>>, "ebreak")
     ELSE LET sel == IntSel(s, s.c[mip])
          IN IF sel[1] # 0 THEN Res(TrapInt(s, sel), m, t, <<>>, "interrupt")
             ELSE Exec(s, m, t, i, FloatOp)
=============================================================================
