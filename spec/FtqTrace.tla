------------------------------ MODULE FtqTrace ------------------------------
(***************************************************************************)
(* Recorded cycles of the fetch-target queue and instruction buffer.        *)
(* cycle: <<t, [flush, redirect block or -1, ready, offered], accepted,     *)
(*          waiting, consumed, issue lookups, retire lookups, retired>>     *)
(*  accepted [off, inst, pc, fault, predicted taken, metadata]..., [next]   *)
(*  waiting  [inst, pc, fault, block, off, last]                            *)
(*  issue lookup  [block, off, pc, predicted taken, next]                   *)
(*  retire lookup [block, off, pc]                                          *)
(*  retired  [block, off, last, mispredicted, pc, predicted, metadata]      *)
(* The name of an accepted block is learnt from its first instruction to    *)
(* reach decode.                                                            *)
(***************************************************************************)
EXTENDS Ftq, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS NB, NI, W                  \* blocks, buffered instructions, decode width

VARIABLES tid, l, blocks, buf, after, bad   \* buf: [b (position from the end of its block), ...] see below
vars == <<tid, l, blocks, buf, after, bad>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ blocks = <<>> /\ buf = <<>> /\ after = FALSE /\ bad = <<>>

\* an accepted block; serial numbers it until its name is known
Block(a, n) == [idx |-> -1, ser |-> n, next |-> a[Len(a)][1],
                slots |-> [k \in 1..(Len(a) - 1) |-> [off |-> a[k][1], inst |-> a[k][2], pc |-> a[k][3], pf |-> a[k][4],
                                                      pred |-> a[k][5], meta |-> a[k][6]]]]
Items(a, n) == [k \in 1..(Len(a) - 1) |-> [ser |-> n, inst |-> a[k][2], pc |-> a[k][3], pf |-> a[k][4], off |-> a[k][1],
                                           last |-> IF k = Len(a) - 1 THEN 1 ELSE 0]]
BySer(b, n) == CHOOSE k \in 1..Len(b) : b[k].ser = n
SerLive(b, n) == \E k \in 1..Len(b) : b[k].ser = n

\* learn the names of the blocks shown to decode
RECURSIVE Learn(_, _, _)
Learn(b, w, k) ==
  IF k > Len(w) \/ k > Len(buf) THEN <<b, <<>>>>
  ELSE IF ~SerLive(b, buf[k].ser) THEN <<b, <<"waiting for a dead block">>>>
  ELSE LET p == BySer(b, buf[k].ser)
       IN IF b[p].idx = w[k][4] THEN Learn(b, w, k + 1)
          ELSE IF b[p].idx # -1 THEN <<b, <<"block changed name">>>>
          ELSE IF ~MayName(b, w[k][4]) THEN <<b, <<"block overwritten">>>>
          ELSE Learn([b EXCEPT ![p].idx = w[k][4]], w, k + 1)

RECURSIVE Retire(_, _, _)
Retire(b, r, k) ==
  IF k > Len(r) THEN <<b, <<>>>>
  ELSE IF b = <<>> \/ b[1].idx # r[k][1] \/ ~HasSlot(b, r[k][1], r[k][2]) THEN <<b, <<"retired from another block">>>>
  ELSE LET s == SlotOf(b, r[k][1], r[k][2])
           last == r[k][2] = LastOff(b[1]) \/ r[k][4] = 1
           m == Fl(s.pc = r[k][5], "retired pc") \o Fl(s.pred = r[k][6], "retired prediction")
                \o Fl(s.meta = r[k][7], "retired metadata") \o Fl(last = (r[k][3] = 1), "last of block")
       IN IF m # <<>> THEN <<b, m>> ELSE Retire(IF r[k][3] = 1 THEN Tail(b) ELSE b, r, k + 1)

Next ==
  /\ bad = <<>> /\ l <= Len(Traces[tid].pt)
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ \E e \in {Traces[tid].pt[l]} :
     \E ln \in {Learn(blocks, e[4], 1)} :
     \E rt \in {Retire(ln[1], e[8], 1)} :
     LET c == e[2]
         flush == c[1] = 1
         mis == c[2] >= 0
         b0 == ln[1]
         acc == e[3] # <<>>
         shown == IF Len(buf) < W THEN Len(buf) ELSE W
         b1 == rt[1]
         b2 == IF acc THEN Append(b1, Block(e[3], l)) ELSE b1
         b3 == IF flush THEN <<>> ELSE IF mis /\ c[2] \in Names(b0) THEN KeepTo(b0, c[2]) ELSE b2
         i1 == SubSeq(buf, (IF e[5] > Len(buf) THEN Len(buf) ELSE e[5]) + 1, Len(buf))
         i2 == IF acc THEN i1 \o Items(e[3], l) ELSE i1
     IN /\ blocks' = b3
        /\ buf' = IF flush \/ mis THEN <<>> ELSE i2
        /\ after' = flush
        /\ bad' = ln[2] \o rt[2]
                  \o Fl(Traces[tid].end # "stuck", "stuck")
                  \o Fl(Len(e[4]) = shown, "number waiting")
                  \o Fl(Len(e[4]) = shown => \A k \in 1..shown :
                          <<e[4][k][1], e[4][k][2], e[4][k][3], e[4][k][5], e[4][k][6]>>
                            = <<buf[k].inst, buf[k].pc, buf[k].pf, buf[k].off, buf[k].last>>, "order")
                  \o Fl(e[5] <= shown, "consumed nothing")
                  \o Fl(acc => Len(blocks) < NB /\ Len(buf) + Len(e[3]) - 1 <= NI, "accepted when full")
                  \o Fl(c[3] = 1 /\ c[4] > 0 => Len(e[3]) = c[4] + 1, "accepted in part")
                  \o Fl(c[3] = 0 => ~acc, "accepted when not ready")
                  \o Fl(c[3] = 0 /\ ~flush /\ ~mis /\ ~after => Len(blocks) >= NB \/ Len(buf) + c[4] > NI, "refused with room")
                  \o Fl(mis /\ ~flush => c[2] \in Names(b0), "redirect names no block")
                  \o Fl(\A k \in 1..Len(e[6]) :
                          /\ HasSlot(b0, e[6][k][1], e[6][k][2])
                          /\ LET s == SlotOf(b0, e[6][k][1], e[6][k][2])
                             IN s.pc = e[6][k][3] /\ s.pred = e[6][k][4]
                                /\ BlockOf(b0, e[6][k][1]).next = e[6][k][5], "issue lookup")
                  \o Fl(\A k \in 1..Len(e[7]) :
                          HasSlot(b0, e[7][k][1], e[7][k][2])
                          /\ SlotOf(b0, e[7][k][1], e[7][k][2]).pc = e[7][k][3], "retire lookup")

Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, blocks |-> blocks, buf |-> buf,
          e |-> IF l <= Len(Traces[tid].pt) THEN Traces[tid].pt[l] ELSE <<>>]
=============================================================================
