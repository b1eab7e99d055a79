------------------------------ MODULE Devices ------------------------------
(***************************************************************************)
(* The memory-mapped devices of the simulated platform: the 64-bit timer,   *)
(* the serial port, the interrupt controller's claim register and the       *)
(* memory-to-memory DMA engine, each as plain state plus one function per   *)
(* access.                                                                  *)
(*                                                                          *)
(* Device state d == [off, cmp, src, dst, len, ctrl, stat, ua, dm, out]     *)
(*   off, cmp : 64-bit pairs; mtime is now + off                            *)
(*   ua, dm   : serial / DMA interrupt request pending                      *)
(*   out      : bytes transmitted so far                                    *)
(* Plain device words live in the memory m of module RV32.                  *)
(***************************************************************************)
EXTENDS RV32

DmaBase == Mk(8144, 61440)       \* 0x1fd0f000
DmaSrc == DmaBase
DmaDst == DmaBase + 4
DmaLen == DmaBase + 8
DmaCtrl == DmaBase + 12
DmaStat == DmaBase + 16
PlicBase == Mk(3072, 0)          \* 0x0c000000
XpsBase == Mk(8112, 0)           \* 0x1fb00000
UartIrq == 10
DmaIrq == 11

DevInit(off, cmp) ==
  [off |-> off, cmp |-> cmp, src |-> 0, dst |-> 0, len |-> 0, ctrl |-> 0, stat |-> 0,
   ua |-> FALSE, dm |-> FALSE, out |-> <<>>]

\* device space as the core sees it: never cached, one access per instruction
IsDev(a) == \/ a >= UartBase /\ a < UartBase + 16
            \/ a >= PlicBase /\ a < PlicBase + 67108864
            \/ a >= XpsBase /\ a < XpsBase + 4096
            \/ a >= DmaBase /\ a < DmaBase + 256
            \/ a \in {TimerLow, TimerHigh, TimerCmpLow, TimerCmpHigh}
\* device space with a behaviour model
IsModelled(a) == \/ a >= UartBase /\ a < UartBase + 256
                 \/ a >= PlicBase /\ a < PlicBase + 2162688
                 \/ a >= DmaBase /\ a < DmaBase + 256
                 \/ a >= TimerLow /\ a < TimerLow + 256

DevTime(d, now) == Add64(now, d.off)
DevTip(d, now) == LeU64(d.cmp, DevTime(d, now))
ClaimId(d) == IF d.dm THEN DmaIrq ELSE IF d.ua THEN UartIrq ELSE 0
DevEip(d) == ClaimId(d) # 0
\* the claim register always shows the highest-priority request
ShowClaim(d, m) == IF Rd(m, PlicClaim) = ClaimId(d) THEN m
                   ELSE WrI(m, WIdx(PlicClaim), ClaimId(d))

DevLoad(d, m, now, a, f3) ==
  CASE a = TimerLow -> DevTime(d, now)[2]
    [] a = TimerHigh -> DevTime(d, now)[1]
    [] a = TimerCmpLow -> d.cmp[2]
    [] a = TimerCmpHigh -> d.cmp[1]
    [] a = DmaSrc -> d.src
    [] a = DmaDst -> d.dst
    [] a = DmaLen -> d.len
    [] a = DmaCtrl -> d.ctrl
    [] a = DmaStat -> d.stat
    [] OTHER -> LoadVal(f3, Rd(m, a), a % 4)

\* bytes of RAM, for DMA
Byte(m, a) == Srl(Rd(m, a), 8 * (a % 4)) % 256
SetByte(m, a, v) == WrI(m, WIdx(a), Merge(Rd(m, a), Sll(v, 8 * (a % 4)), StrbMask(P2[(a % 4) + 1])))
RECURSIVE Copy(_, _, _, _)
Copy(m, m0, d, k) == IF k = d.len THEN m
                     ELSE Copy(SetByte(m, Add(d.dst, k), Byte(m0, Add(d.src, k))), m0, d, k + 1)
RamBase == MinInt                \* 0x80000000
RamWords == 268435456            \* 1 GiB
\* [a, a+len) inside RAM?  RAM is 0x80000000 .. 0xbfffffff, negative as a word
InRam(a, len) == /\ len # 0
                 /\ a < 0 /\ len > 0
                 /\ LET o == a - MinInt IN o < 1073741824 /\ len <= 1073741824 - o
Dr(d, m) == [d |-> d, m |-> m]

DevStore(d, m, now, a, f3, v) ==
  LET mt == DevTime(d, now)
      o == a % 4
      strb == StoreStrb(f3, o)
      m1 == PlainStore(m, a, strb, WAnd(Sll(v, 8 * o), StrbMask(strb)))
      u == Rd(m1, UartBase)
      b0 == v % 256
  IN
  CASE a = TimerLow -> Dr([d EXCEPT !.off = Sub64(<<mt[1], v>>, now)], m)
    [] a = TimerHigh -> Dr([d EXCEPT !.off = Sub64(<<v, mt[2]>>, now)], m)
    [] a = TimerCmpLow -> Dr([d EXCEPT !.cmp = <<@[1], v>>], m)
    [] a = TimerCmpHigh -> Dr([d EXCEPT !.cmp = <<v, @[2]>>], m)
    [] a = DmaSrc -> Dr([d EXCEPT !.src = v], m)
    [] a = DmaDst -> Dr([d EXCEPT !.dst = v], m)
    [] a = DmaLen -> Dr([d EXCEPT !.len = v], m)
    [] a = DmaCtrl ->
         LET d1 == [d EXCEPT !.ctrl = WAnd(v, 2)]
         IN IF ~Bit(v, 0) THEN Dr(d1, m)
            ELSE IF InRam(d.src, d.len) /\ InRam(d.dst, d.len)
            THEN LET d2 == [d1 EXCEPT !.stat = 2, !.dm = d.dm \/ Bit(v, 1)]
                 IN Dr(d2, IF Bit(v, 1) THEN ShowClaim(d2, Copy(m, m, d, 0)) ELSE Copy(m, m, d, 0))
            ELSE Dr([d1 EXCEPT !.stat = 4], m)
    [] a = DmaStat -> Dr([d EXCEPT !.stat = AndNot(@, v)], m)
    [] a = UartBase -> Dr([d EXCEPT !.out = Append(@, b0)], WrI(m1, WIdx(UartBase), u - (u % 256)))
    [] a = UartBase + 1 /\ b0 = 7 ->
         LET d1 == [d EXCEPT !.ua = TRUE]
         IN Dr(d1, ShowClaim(d1, WrI(m1, WIdx(UartBase), AndNot(u, 983040))))
    [] a = UartBase + 1 /\ b0 = 5 ->
         Dr(d, WrI(m1, WIdx(UartBase), WOr(AndNot(u, 983040), 196608)))
    [] a = PlicClaim ->
         LET d1 == CASE b0 = UartIrq -> [d EXCEPT !.ua = FALSE]
                     [] b0 = DmaIrq -> [d EXCEPT !.dm = FALSE]
                     [] OTHER -> d
         IN Dr(d1, ShowClaim(d1, m1))
    [] OTHER -> Dr(d, m1)
=============================================================================
