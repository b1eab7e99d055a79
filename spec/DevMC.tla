-------------------------------- MODULE DevMC --------------------------------
(***************************************************************************)
(* The device specification explored exhaustively over a small set of       *)
(* accesses, in every order, against the programming model stated as        *)
(* history: what was requested since the last completion, what was last     *)
(* transferred, where the comparison threshold lies.                        *)
(***************************************************************************)
EXTENDS Devices, TLC
CONSTANTS Depth
VARIABLES d, m, now, steps, uReq, dReq, sent, last
vars == <<d, m, now, steps, uReq, dReq, sent, last>>
Src == RamBase + 1
Dst == RamBase + 6
\* RAM starts out with distinct bytes
Mem0 == [b |-> <<>>, o |-> [i \in {WIdx(RamBase + 4 * k) : k \in 0..3} |->
                             LET k == i - WIdx(RamBase) IN Mk(1028 * k + 515, 1028 * k + 1)]]
Init == /\ d = DevInit(<<0, 0>>, <<0, 2>>) /\ m = Mem0 /\ now = <<0, 0>> /\ steps = 0 /\ uReq = FALSE /\ dReq = FALSE
        /\ sent = <<>> /\ last = [a |-> 0, v |-> 0, pre |-> Mem0, pd |-> DevInit(<<0, 0>>, <<0, 2>>)]
SW == 2
SB == 0
Accesses == {<<TimerLow, SW, 0>>, <<TimerLow, SW, -1>>, <<TimerHigh, SW, 0>>, <<TimerHigh, SW, 1>>,
             <<TimerCmpLow, SW, 1>>, <<TimerCmpHigh, SW, 1>>, <<TimerCmpHigh, SW, 0>>,
             <<UartBase, SB, 65>>, <<UartBase + 1, SB, 7>>, <<UartBase + 1, SB, 5>>,
             <<PlicClaim, SW, 10>>, <<PlicClaim, SW, 11>>, <<PlicClaim, SW, 3>>,
             <<DmaSrc, SW, Src>>, <<DmaDst, SW, Dst>>, <<DmaDst, SW, Src + 2>>, <<DmaDst, SW, MinInt + 1073741822>>,
             <<DmaLen, SW, 3>>, <<DmaLen, SW, 0>>, <<DmaCtrl, SW, 1>>, <<DmaCtrl, SW, 3>>, <<DmaStat, SW, 2>>}
DoStore == \E x \in Accesses :
  \E r \in {DevStore(d, m, now, x[1], x[2], x[3])} :
     /\ d' = [r.d EXCEPT !.out = <<>>] /\ m' = r.m
     /\ uReq' = (IF x[1] = UartBase + 1 /\ x[3] = 7 THEN TRUE ELSE IF x[1] = PlicClaim /\ x[3] = 10 THEN FALSE ELSE uReq)
     /\ dReq' = (IF x[1] = DmaCtrl /\ x[3] = 3 /\ InRam(d.src, d.len) /\ InRam(d.dst, d.len) THEN TRUE
                 ELSE IF x[1] = PlicClaim /\ x[3] = 11 THEN FALSE ELSE dReq)
     /\ sent' = r.d.out
     /\ last' = [a |-> x[1], v |-> x[3], pre |-> m, pd |-> d] /\ now' = now
Tick == /\ now' = Add64(now, <<0, 1>>) /\ m' = ShowClaim(d, m) /\ last' = [a |-> 0, v |-> 0, pre |-> m, pd |-> d]
        /\ sent' = <<>> /\ UNCHANGED <<d, uReq, dReq>>
Next == steps < Depth /\ steps' = steps + 1 /\ (DoStore \/ Tick)
Spec == Init /\ [][Next]_vars

\* the external line is high exactly while a request is outstanding, and the claim register names one
Paired == /\ DevEip(d) = (uReq \/ dReq)
          /\ Rd(m, PlicClaim) \in {0, 3, 10, 11}
          /\ (last.a # PlicClaim => (Rd(m, PlicClaim) = 10 => uReq) /\ (Rd(m, PlicClaim) = 11 => dReq))
\* one byte out per transmit store, none otherwise
Sent == sent = IF last.a = UartBase THEN <<65>> ELSE <<>>
\* written time halves read back; the line follows the 64-bit comparison, written out in another way
Timer == /\ (last.a = TimerLow => DevTime(d, now)[2] = last.v /\ DevTime(d, now)[1] = DevTime(last.pd, now)[1])
         /\ (last.a = TimerHigh => DevTime(d, now)[1] = last.v /\ DevTime(d, now)[2] = DevTime(last.pd, now)[2])
         /\ DevTip(d, now) = LET t == DevTime(d, now)
                             IN LtU(d.cmp[1], t[1]) \/ (d.cmp[1] = t[1] /\ ~LtU(t[2], d.cmp[2]))
\* a started transfer in range leaves the destination equal to the old source and everything else alone
Window == (RamBase - 0)..(RamBase + 15)
Good == InRam(last.pd.src, last.pd.len) /\ InRam(last.pd.dst, last.pd.len)
Dma == /\ (last.a = DmaCtrl /\ Good => /\ d.stat = 2
              /\ \A a \in Window : Byte(m, a) = IF a >= last.pd.dst /\ a < last.pd.dst + last.pd.len
                                                 THEN Byte(last.pre, last.pd.src + (a - last.pd.dst)) ELSE Byte(last.pre, a))
       /\ (last.a = DmaCtrl /\ ~Good => d.stat = 4 /\ m = last.pre)
       /\ (last.a # DmaCtrl => \A a \in Window : Byte(m, a) = Byte(last.pre, a))
\* registers read back what was written
ReadBack == /\ (last.a = DmaSrc => DevLoad(d, m, now, DmaSrc, 2) = last.v)
            /\ (last.a = DmaLen => DevLoad(d, m, now, DmaLen, 2) = last.v)
            /\ (last.a = TimerCmpLow => DevLoad(d, m, now, TimerCmpLow, 2) = last.v /\ d.cmp[1] = last.pd.cmp[1])
            /\ (last.a = DmaStat => ~Bit(d.stat, 1))
=============================================================================
