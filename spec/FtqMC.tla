------------------------------- MODULE FtqMC --------------------------------
(***************************************************************************)
(* The ring that names fetch blocks (head, tail, count, valid bits; tail    *)
(* roll-back on a misprediction; pop when an instruction marked last        *)
(* retires) in lockstep with Ftq.  win is the window of instructions taken  *)
(* from the blocks and not yet retired.  Payload is a serial number modulo  *)
(* NS standing for the block's contents.                                    *)
(***************************************************************************)
EXTENDS Ftq, TLC
CONSTANTS NB, NS, MaxWin
VARIABLES head, tail, cnt, valid, mem, blocks, win, ser, ok
vars == <<head, tail, cnt, valid, mem, blocks, win, ser, ok>>
Ring == 0..(NB - 1)
Inc(x) == (x + 1) % NB
Init == /\ head = 0 /\ tail = 0 /\ cnt = 0 /\ valid = [i \in Ring |-> FALSE] /\ mem = [i \in Ring |-> 0]
        /\ blocks = <<>> /\ win = <<>> /\ ser = 0 /\ ok = TRUE

\* accept a block of n instructions (0: none); retire r instructions; redirect at window position m (0: none)
Cycle(n, r, m, flush) ==
  LET acc == n > 0 /\ cnt < NB /\ m = 0
      idx == tail
      blk == [idx |-> idx, slots |-> [k \in 1..n |-> [off |-> k - 1]], pay |-> ser]
      new == [k \in 1..n |-> [idx |-> idx, off |-> k - 1, last |-> k = n, pay |-> ser]]
      out == SubSeq(win, 1, r)
      pops == Cardinality({k \in 1..r : out[k].last})
      \* misprediction
      nt == Inc(win[m].idx)
      gone == (tail - nt + NB) % NB
      goneSet == {(nt + k) % NB : k \in 0..(gone - 1)}
      wm == [SubSeq(win, 1, m) EXCEPT ![m].last = TRUE]
      popped == {(head + k) % NB : k \in 0..(pops - 1)}
  IN /\ ok' = /\ \A k \in 1..r : out[k].idx \in Names(blocks) /\ mem[out[k].idx] = out[k].pay
              /\ (acc => MayName(blocks, idx))
              /\ (m > 0 => win[m].idx \in Names(blocks))
              /\ \A k \in 1..r : k = 1 \/ out[k].idx = out[k - 1].idx \/ out[k - 1].last
     /\ IF flush THEN /\ head' = 0 /\ tail' = 0 /\ cnt' = 0 /\ valid' = [i \in Ring |-> FALSE] /\ mem' = mem
                      /\ blocks' = <<>> /\ win' = <<>> /\ ser' = ser
        ELSE IF m > 0
        THEN /\ tail' = nt /\ cnt' = cnt - gone /\ head' = head
             /\ valid' = [i \in Ring |-> valid[i] /\ i \notin goneSet] /\ mem' = mem
             /\ blocks' = KeepTo(blocks, win[m].idx) /\ win' = wm /\ ser' = ser
        ELSE /\ tail' = IF acc THEN Inc(tail) ELSE tail
             /\ head' = (head + pops) % NB
             /\ cnt' = cnt + (IF acc THEN 1 ELSE 0) - pops
             /\ valid' = [i \in Ring |-> (valid[i] /\ i \notin popped) \/ (acc /\ i = idx)]
             /\ mem' = IF acc THEN [mem EXCEPT ![idx] = ser] ELSE mem
             /\ blocks' = SubSeq(blocks, pops + 1, Len(blocks)) \o (IF acc THEN <<blk>> ELSE <<>>)
             /\ win' = SubSeq(win, r + 1, Len(win)) \o (IF acc THEN new ELSE <<>>)
             /\ ser' = IF acc THEN (ser + 1) % NS ELSE ser

Next == \E n \in 0..2, r \in 0..2, m \in 0..Len(win), flush \in BOOLEAN :
          /\ r <= Len(win) /\ Len(win) + n - r <= MaxWin
          /\ (m > 0 => r = 0 /\ n = 0 /\ ~flush) /\ (flush => n = 0 /\ r = 0)
          /\ Cycle(n, r, m, flush)
Spec == Init /\ [][Next]_vars
Right == ok
Lockstep == /\ cnt = Len(blocks) /\ {i \in Ring : valid[i]} = Names(blocks)
            /\ \A k \in 1..Len(blocks) : blocks[k].idx = (head + k - 1) % NB
Held == \A k \in 1..Len(win) : win[k].idx \in Names(blocks) /\ mem[win[k].idx] = win[k].pay
Released == win = <<>> => blocks = <<>>
=============================================================================
