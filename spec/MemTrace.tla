------------------------------ MODULE MemTrace ------------------------------
(***************************************************************************)
(* The backing memory and the device model driven directly.                 *)
(*  M: <<1 addr value>> word read  <<2 addr value>> word write              *)
(*     <<3 addr bytes>> copy in  <<4 addr bytes guard>> copy out            *)
(*     <<5 addr size answer>> is it RAM?  <<6>> clear                       *)
(*     <<7 addr size refused>> copy  <<8 addr value>> word seen through     *)
(*     the base pointer                                                     *)
(*  P: <<kind, ..., transmitted bytes, timer line, external line, level>>   *)
(*     kind 1 store addr data f3, 2 load addr f3 value, 3 time hi lo,       *)
(*     4 word written to memory, 5 word read from memory                    *)
(*     a line is -1 when the model did not drive it                         *)
(***************************************************************************)
EXTENDS Devices, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, m, d, now, bad
vars == <<tid, l, m, d, now, bad>>
Empty == [b |-> <<>>, o |-> [i \in {} |-> 0]]
Z64 == <<0, 0>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ m = Empty /\ d = DevInit(Z64, Z64) /\ now = Z64 /\ bad = <<>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
B01(b) == IF b THEN 1 ELSE 0

RECURSIVE PutBytes(_, _, _, _)
PutBytes(mm, a, b, k) == IF k > Len(b) THEN mm ELSE PutBytes(SetByte(mm, Add(a, k - 1), b[k]), a, b, k + 1)
GetBytes(mm, a, n) == [k \in 1..n |-> Byte(mm, Add(a, k - 1))]

MStep(e) ==
  /\ UNCHANGED <<d, now>>
  /\ CASE e[1] = 1 -> m' = m /\ bad' = Fl(e[3] = Rd(m, e[2]), "read")
       [] e[1] = 2 -> m' = WrI(m, WIdx(e[2]), e[3]) /\ bad' = <<>>
       [] e[1] = 3 -> m' = PutBytes(m, e[2], e[3], 1) /\ bad' = <<>>
       [] e[1] = 4 -> m' = m /\ bad' = Fl(e[3] = GetBytes(m, e[2], Len(e[3])), "copy out") \o Fl(e[4] = 1, "copied too much")
       [] e[1] = 5 -> m' = m /\ bad' = Fl(e[4] = B01(InRam(e[2], e[3])), "is RAM")
       [] e[1] = 6 -> m' = Empty /\ bad' = <<>>
       [] e[1] = 7 -> m' = m /\ bad' = Fl(e[4] = B01(e[3] # 0 /\ ~InRam(e[2], e[3])), "copy outside RAM")
       [] OTHER -> m' = m /\ bad' = Fl(e[3] = Rd(m, e[2]), "word at pointer")

PStep(e) ==
  LET mod == e[1] \in {1, 2} /\ IsModelled(e[2])
      r == IF e[1] = 1 /\ mod THEN DevStore(d, m, now, e[2], e[4], e[3]) ELSE Dr(d, m)
      t2 == IF e[1] = 3 THEN <<e[2], e[3]>> ELSE now
      m2 == CASE e[1] = 3 -> ShowClaim(d, m) [] e[1] = 4 -> WrI(m, WIdx(e[2]), e[3]) [] OTHER -> r.m
      sent == SubSeq(r.d.out, Len(d.out) + 1, Len(r.d.out))
  IN /\ m' = m2 /\ now' = t2 /\ d' = [r.d EXCEPT !.out = <<>>]
     /\ bad' = Fl(e[1] = 2 => e[4] = (IF mod THEN DevLoad(d, m, now, e[2], e[3]) ELSE 0), "load")
            \o Fl(e[1] = 5 => e[3] = Rd(m, e[2]), "memory")
            \o Fl(e[5] = sent, "transmitted")
            \o Fl(e[6] \in (IF e[1] = 3 THEN {} ELSE {-1}) \cup {B01(DevTip(r.d, t2))}, "timer line")
            \o Fl(e[7] \in (IF e[1] = 3 THEN {} ELSE {-1}) \cup {B01(DevEip(r.d))}, "external line")
            \o Fl(e[8] = B01(DevTip(r.d, t2)), "timer level")

Next == /\ bad = <<>> /\ l <= Len(Traces[tid].v) /\ l' = l + 1 /\ UNCHANGED tid
        /\ \E t \in {Traces[tid]} : IF t.what = "M" THEN MStep(t.v[l]) ELSE PStep(t.v[l])
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, d |-> d, now |-> now, at |-> IF l > 1 THEN Traces[tid].v[l - 1] ELSE <<>>]
=============================================================================
