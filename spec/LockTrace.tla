------------------------------ MODULE LockTrace ------------------------------
(***************************************************************************)
(* The lockstep checker driven with arbitrary pairs of states:              *)
(* <<1 core>> <<2 next reference, next information>>                        *)
(* <<3 check, verdict, steps, faults told, time, time told>>                *)
(* <<4 privilege, reference state, faults told, time, time told>> sync      *)
(* <<5 addr size>> RAM range copied  <<6 addr word>> core memory written    *)
(* <<7 addr word>> reference memory written  <<8 addr core ref>> read       *)
(* <<9 end wfi>> <<10 which value flags>> <<11 priv state effects live>>    *)
(* <<12 state>> taken from the reference <<13 size effects live>>           *)
(***************************************************************************)
EXTENDS Lockstep, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, dut, ref, nxt, info, ninfo, dm, rm, flags, bad
vars == <<tid, l, dut, ref, nxt, info, ninfo, dm, rm, flags, bad>>
Empty == [b |-> <<>>, o |-> [i \in {} |-> 0]]
Zeros(n) == [i \in 1..n |-> 0]
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ dut = Zeros(66) /\ ref = Zeros(67) /\ nxt = Zeros(67) /\ info = Zeros(5)
        /\ ninfo = Zeros(5) /\ dm = Empty /\ rm = Empty /\ flags = <<0, 0, 0>> /\ bad = <<>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
B01(b) == IF b THEN 1 ELSE 0
Faults(d) == <<d[60], d[61], d[62]>>
\* I/O words that are part of the machine
Shared(a) == \/ a >= 0 /\ a < 8192
             \/ a >= UartBase /\ a < UartBase + 256
             \/ a >= PlicBase /\ a < PlicBase + 2162688
             \/ a >= TimerLow /\ a < TimerLow + 256
             \/ a >= DmaBase /\ a < DmaBase + 256
IdxAddr(i) == IF i >= 536870912 THEN (i - 1073741824) * 4 ELSE i * 4
\* to takes the RAM (below limit bytes) and shared I/O words of from; everything else stays when keep, else is clear
Move(from, to, limit, keep) ==
  LET In(i) == LET a == IdxAddr(i) IN IF InRam(a, 4) THEN a - MinInt < limit ELSE Shared(a)
      dom == (DOMAIN from.o) \cup (DOMAIN to.o)
  IN [b |-> <<>>, o |-> [i \in dom |-> IF In(i) THEN RdI(from, i) ELSE IF keep THEN RdI(to, i) ELSE 0]]
RECURSIVE CopyBytes(_, _, _, _, _)
CopyBytes(from, to, a, n, k) == IF k = n THEN to ELSE CopyBytes(from, SetByte(to, Add(a, k), Byte(from, Add(a, k))), a, n, k + 1)

LStep(e) ==
  LET keepAll == UNCHANGED <<dut, ref, nxt, info, ninfo, dm, rm, flags>>
  IN
  CASE e[1] = 1 -> dut' = e[2] /\ bad' = <<>> /\ UNCHANGED <<ref, nxt, info, ninfo, dm, rm, flags>>
    [] e[1] = 2 -> nxt' = e[2] /\ ninfo' = e[3] /\ bad' = <<>> /\ UNCHANGED <<dut, ref, info, dm, rm, flags>>
    [] e[1] = 3 -> /\ ref' = nxt /\ info' = ninfo
                   /\ bad' = Fl(e[3] = B01(e[2] = 1 /\ Differs(dut, nxt, ninfo)), "verdict") \o Fl(e[4] = 1, "one step")
                          \o Fl(e[5] = Faults(dut), "faults told") \o Fl(e[6] = e[7], "time told")
                   /\ UNCHANGED <<dut, nxt, ninfo, dm, rm, flags>>
    [] e[1] = 4 -> /\ ref' = e[3]
                   /\ bad' = Fl(e[3] = Synced(dut, e[2]), "state copied") \o Fl(e[4] = Faults(dut), "faults told") \o Fl(e[5] = e[6], "time told")
                   /\ UNCHANGED <<dut, nxt, info, ninfo, dm, rm, flags>>
    [] e[1] = 5 -> /\ rm' = IF InRam(e[2], e[3]) THEN CopyBytes(dm, rm, e[2], e[3], 0) ELSE rm
                   /\ bad' = <<>> /\ UNCHANGED <<dut, ref, nxt, info, ninfo, dm, flags>>
    [] e[1] = 6 -> dm' = WrI(dm, WIdx(e[2]), e[3]) /\ bad' = <<>> /\ UNCHANGED <<dut, ref, nxt, info, ninfo, rm, flags>>
    [] e[1] = 7 -> rm' = WrI(rm, WIdx(e[2]), e[3]) /\ bad' = <<>> /\ UNCHANGED <<dut, ref, nxt, info, ninfo, dm, flags>>
    [] e[1] = 8 -> bad' = Fl(e[3] = Rd(dm, e[2]), "core memory") \o Fl(e[4] = Rd(rm, e[2]), "reference memory") /\ keepAll
    [] e[1] = 9 -> bad' = Fl(e[2] = info[5], "end") \o Fl(e[3] = B01(info[1] = Mk(4176, 115)), "wfi") /\ keepAll
    [] e[1] = 10 -> /\ flags' = [flags EXCEPT ![e[2] + 1] = e[3]] /\ bad' = Fl(e[4] = [flags EXCEPT ![e[2] + 1] = e[3]], "flags")
                    /\ UNCHANGED <<dut, ref, nxt, info, ninfo, dm, rm>>
    [] e[1] = 11 -> /\ ref' = e[3] /\ rm' = Move(dm, Empty, 1073741824, FALSE) /\ flags' = <<1, 0, 0>> /\ info' = Zeros(5)
                    /\ bad' = Fl(e[3] = Synced(dut, e[2]), "state given") \o Fl(e[4] = 0, "effects off") \o Fl(e[5] = 1, "one reference")
                    /\ UNCHANGED <<dut, nxt, ninfo, dm>>
    [] e[1] = 12 -> /\ dm' = Move(rm, dm, 1073741824, TRUE) /\ bad' = Fl(e[2] = ref, "state taken")
                    /\ UNCHANGED <<dut, ref, nxt, info, ninfo, rm, flags>>
    [] OTHER -> /\ ref' = Zeros(67) /\ rm' = Move(dm, Empty, e[2], FALSE) /\ flags' = <<1, 0, 0>> /\ info' = Zeros(5)
                /\ bad' = Fl(e[3] = 0, "effects off") \o Fl(e[4] = 1, "one reference")
                /\ UNCHANGED <<dut, nxt, ninfo, dm>>
Next == /\ bad = <<>> /\ l <= Len(Traces[tid].v) /\ l' = l + 1 /\ UNCHANGED tid
        /\ \E e \in {Traces[tid].v[l]} : LStep(e)
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, dut |-> dut, ref |-> ref, info |-> info, at |-> IF l > 1 THEN Traces[tid].v[l - 1] ELSE <<>>]
=============================================================================
