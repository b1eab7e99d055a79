------------------------------ MODULE FrontMC -------------------------------
(***************************************************************************)
(* The front-end pipeline: prediction -> address queue -> cache (any        *)
(* latency) -> instruction queue -> check -> queue to the back end, with    *)
(* the prediction record travelling beside the instructions in a queue of   *)
(* its own.  Predictions are arbitrary.  know[b] is what pre-decode can     *)
(* prove about block b: the block that must follow, or -1 for "anything".   *)
(* ser is the number of the prediction, modulo NS.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS NB, NS, CapA, CapI, CapP, CapB
Blocks == 0..(NB - 1)
VARIABLES know, pc, faq, ic, ifq, ptb, f2b, pend, ser, want, ok
vars == <<know, pc, faq, ic, ifq, ptb, f2b, pend, ser, want, ok>>
Init == /\ know \in [Blocks -> Blocks \cup {-1}] /\ pc = 0 /\ faq = <<>> /\ ic = <<>> /\ ifq = <<>> /\ ptb = <<>>
        /\ f2b = <<>> /\ pend = <<>> /\ ser = 0 /\ want = <<>> /\ ok = TRUE

Pop(q, b) == IF b THEN Tail(q) ELSE q
\* back: <<>> or the address of a refetch; next: the prediction; go/rsp/chk/rd: which stages move
Cycle(back, next, go, rsp, chk, rd) ==
  LET clr == back # <<>> \/ pend # <<>>
      f == IF back # <<>> THEN <<>> ELSE f2b
      start == IF back # <<>> THEN back[1] ELSE IF pend # <<>> THEN pend[1] ELSE pc
      room == IF clr THEN TRUE ELSE Len(faq) < CapA - 1 /\ Len(ptb) < CapP - 1
      A == IF clr THEN <<>> ELSE faq  C == IF clr THEN <<>> ELSE ic  I == IF clr THEN <<>> ELSE ifq  P == IF clr THEN <<>> ELSE ptb
      \* check stage
      doc == chk /\ I # <<>> /\ P # <<>> /\ Len(f) < CapB
      blk == Head(I)  rec == Head(P)
      cont == IF know[blk.b] = -1 THEN rec.next ELSE know[blk.b]
      out == IF doc THEN <<[b |-> blk.b, next |-> cont]>> ELSE <<>>
      f1 == f \o out
      dor == rd /\ f1 # <<>>
      \* cache
      dos == rsp /\ C # <<>>
      C1 == IF dos THEN <<>> ELSE C
      dog == go /\ C1 = <<>> /\ A # <<>>
  IN /\ know' = know
     /\ pc' = IF room THEN next ELSE start
     /\ faq' = Pop(A, dog) \o (IF room THEN <<[b |-> start, ser |-> ser]>> ELSE <<>>)
     /\ ptb' = Pop(P, doc) \o (IF room THEN <<[next |-> next, b |-> start, ser |-> ser]>> ELSE <<>>)
     /\ ser' = IF room THEN (ser + 1) % NS ELSE ser
     /\ ic' = IF dog THEN <<Head(A)>> ELSE C1
     /\ ifq' = Pop(I, doc) \o (IF dos THEN C ELSE <<>>)
     /\ f2b' = Pop(f1, dor)
     /\ pend' = IF doc /\ cont # rec.next THEN <<cont>> ELSE <<>>
     /\ want' = IF dor THEN <<Head(f1).next>> ELSE IF back # <<>> THEN back ELSE want
     /\ ok' = /\ (doc => blk.ser = rec.ser /\ blk.b = rec.b)
              /\ (dor => (IF back # <<>> THEN Head(f1).b = back[1] ELSE want = <<>> \/ want[1] = Head(f1).b))
Next == \E back \in {<<>>} \cup {<<b>> : b \in Blocks}, next \in Blocks, go, rsp, chk, rd \in BOOLEAN :
          Cycle(back, next, go, rsp, chk, rd)
Spec == Init /\ [][Next]_vars
Paired == ok
Bounded == Len(faq) <= CapA /\ Len(ifq) <= CapI /\ Len(ptb) <= CapP /\ Len(f2b) <= CapB
\* everything fetched or being fetched has its record waiting, in the same order
Beside == LET all == ifq \o ic \o faq
          IN Len(all) = Len(ptb) /\ \A k \in 1..Len(all) : all[k].ser = ptb[k].ser /\ all[k].b = ptb[k].b
\* what the back end is about to be given continues what it was given
RECURSIVE Linked(_)
Linked(s) == Len(s) < 2 \/ (s[1].next = s[2].b /\ Linked(Tail(s)))
Chained == Linked(f2b) /\ (f2b # <<>> /\ want # <<>> => want[1] = f2b[1].b)
=============================================================================
