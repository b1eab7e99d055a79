----------------------------- MODULE FrontTrace -----------------------------
(***************************************************************************)
(* Recorded cycles of the front end.                                        *)
(* cycle: <<t, [refetch, address, read enable, stall],                      *)
(*   addresses [cleared, popped, pushed...], request [address]...,          *)
(*   response [pc, words, valid, fault, digest],                            *)
(*   instructions [cleared, popped], pushed [pc, kinds, targets, seq,       *)
(*   digest, valid], predictions [cleared, popped, dummy], pushed [pc,      *)
(*   directions, next, digest], to back end [cleared, popped], pushed B,    *)
(*   delivered B, received B>>    B = [pc, digest, valid, dirs, next, meta] *)
(*                                                                          *)
(* Four queues and the cache stand between prediction and the back end; in  *)
(* every cycle what leaves a stage followed by what stays equals what was   *)
(* there followed by what arrives, so nothing is lost, repeated, reordered  *)
(* or combined with another block's prediction, with or without bypass.     *)
(***************************************************************************)
EXTENDS Predecode, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
CONSTANTS CapA, CapI, CapP, CapB, LineBytes, FW

VARIABLES tid, l, faq, icq, ifq, ptb, f2b, pend, chain, oc, bad
vars == <<tid, l, faq, icq, ifq, ptb, f2b, pend, chain, oc, bad>>
Fl(b, name) == IF b THEN <<>> ELSE <<name>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1 /\ faq = <<>> /\ icq = <<>> /\ ifq = <<>> /\ ptb = <<>> /\ f2b = <<>>
        /\ pend = <<>> /\ chain = <<>> /\ oc = <<>> /\ bad = <<>>

Opt(x) == IF x = <<>> THEN <<>> ELSE <<x>>
Rest(q, popped) == IF popped = 1 /\ q # <<>> THEN Tail(q) ELSE q
DirsOf(m) == [n \in 1..FW |-> (m \div Pow(n - 1)) % 2]
RECURSIVE Mask(_, _)
Mask(d, n) == IF n > FW THEN 0 ELSE d[n] * Pow(n - 1) + Mask(d, n + 1)

\* slots of a block that start in the line of its first instruction, and the block after it
LineSlots(pc) == LET k == (LineBytes - (pc % LineBytes) + 3) \div 4 IN IF k < FW THEN k ELSE FW
SeqNext(pc) == LET o == pc % LineBytes IN Add(pc, IF o + 4 * FW > LineBytes THEN LineBytes - o ELSE 4 * FW)
ValidMask(pc) == Pow(LineSlots(pc)) - 1
\* a response as the instruction-queue entry it becomes
Entry(r) == <<r[1], [n \in 1..FW |-> IF (r[3] \div Pow(n - 1)) % 2 = 1 THEN Kind(r[2][n]) ELSE Other],
              [n \in 1..FW |-> IF (r[3] \div Pow(n - 1)) % 2 = 1 THEN Target(r[2][n], Add(r[1], 4 * (n - 1))) ELSE 0],
              SeqNext(r[1]), r[5], r[3]>>
\* entry a is a correct pre-decoding of response r
EntryOk(r, a) ==
  /\ a[1] = r[1] /\ a[4] = SeqNext(r[1]) /\ a[5] = r[5] /\ a[6] = r[3]
  /\ \A n \in 1..FW : IF (r[3] \div Pow(n - 1)) % 2 = 1 THEN DecodedOk(r[2][n], Add(r[1], 4 * (n - 1)), a[2][n], a[3][n])
                      ELSE a[2][n] = Other
\* instruction entry and prediction entry to back-end block
Made(i, p) == LET d == DirsOf(p[2])
              IN <<i[1], i[5], i[6], Mask(Corrected(d, i[2]), 1), Continue(d, p[3], i[2], i[3], i[4]), p[4]>>
\* the back end takes the slots up to the first valid one that is predicted taken
RECURSIVE Cut(_, _, _)
Cut(v, d, n) == IF n > FW THEN 0
                ELSE IF (v \div Pow(n - 1)) % 2 = 0 THEN Cut(v, d, n + 1)
                ELSE Pow(n - 1) + (IF (d \div Pow(n - 1)) % 2 = 1 THEN 0 ELSE Cut(v, d, n + 1))

Next ==
  /\ bad = <<>> /\ l <= Len(Traces[tid].pt)
  /\ l' = l + 1 /\ UNCHANGED tid
  /\ \E e \in {Traces[tid].pt[l]} :
     LET back == e[2][1] = 1
         clr == back \/ pend # <<>>
         addr == IF back THEN e[2][2] ELSE IF pend # <<>> THEN pend[1] ELSE 0
         newp == Opt(e[9])
         \* addresses
         faq1 == IF clr THEN <<>> ELSE faq
         faq2 == Rest(faq1, e[3][2]) \o SubSeq(e[3], 3, Len(e[3]))
         asked == [n \in 1..Len(newp) |-> newp[n][1]]
         \* cache
         icq1 == (IF clr THEN <<>> ELSE icq) \o e[4]
         got == IF clr THEN <<>> ELSE Opt(e[5])
         \* instructions and predictions
         ifq1 == IF clr THEN <<>> ELSE ifq
         ptb1 == IF clr THEN <<>> ELSE ptb
         run == e[8][2] = 1
         arr == IF got = <<>> THEN <<>> ELSE IF e[7] # <<>> /\ EntryOk(got[1], e[7]) THEN <<e[7]>> ELSE <<Entry(got[1])>>
         used == IF e[6][2] = 1 /\ ifq1 # <<>> THEN <<ifq1[1]>> ELSE IF run THEN arr ELSE <<>>
         ifq2 == Rest(ifq1, e[6][2]) \o Opt(e[7])
         ptb2 == Rest(ptb1, e[8][2]) \o newp
         pair == run /\ ptb1 # <<>> /\ used # <<>>
         made == IF pair THEN <<Made(used[1], ptb1[1])>> ELSE <<>>
         \* to the back end
         f2b1 == IF back THEN <<>> ELSE f2b
         f2b2 == Rest(f2b1, e[10][2]) \o Opt(e[11])
         out == Opt(e[12])
         cut == IF out = <<>> THEN 0 ELSE Cut(out[1][3], out[1][4], 1)
     IN /\ faq' = faq2 /\ ifq' = ifq2 /\ ptb' = ptb2 /\ f2b' = f2b2
        /\ icq' = IF got = <<>> \/ icq1 = <<>> THEN icq1 ELSE Tail(icq1)
        /\ pend' = IF pair /\ made[1][5] # ptb1[1][3] THEN <<made[1][5]>> ELSE <<>>
        /\ chain' = IF clr THEN <<addr>> ELSE IF newp # <<>> THEN <<newp[1][3]>> ELSE chain
        /\ oc' = IF back THEN <<addr>> ELSE IF out # <<>> THEN <<out[1][5]>> ELSE oc
        /\ bad' =
             Fl((e[3][1] = 1) = clr /\ (e[6][1] = 1) = clr /\ (e[8][1] = 1) = clr /\ (e[10][1] = 1) = back,
                "queues emptied exactly on a refetch")
             \o Fl(e[4] \o faq2 = faq1 \o asked, "addresses requested in prediction order")
             \o Fl(newp = <<>> \/ chain = <<>> \/ newp[1][1] = chain[1], "prediction starts where the last one ended")
             \o Fl(got = <<>> \/ (icq1 # <<>> /\ got[1][1] = icq1[1]), "cache answers its oldest request")
             \o Fl(got = <<>> \/ got[1][3] = ValidMask(got[1][1]), "valid slots of a response")
             \o Fl(got = <<>> \/ e[7] = <<>> \/ EntryOk(got[1], e[7]), "pre-decoded entry")
             \o Fl(used \o ifq2 = ifq1 \o arr, "instruction queue")
             \o Fl(e[6][2] = 1 => run /\ ifq1 # <<>>, "instruction popped without its prediction")
             \o Fl(run => pair, "prediction popped without its instructions")
             \o Fl(pair => used[1][1] = ptb1[1][1], "block combined with another prediction")
             \o Fl(e[8][3] = 0, "dummy prediction")
             \o Fl(out \o f2b2 = f2b1 \o made, "queue to the back end")
             \o Fl(e[10][2] = 1 => f2b1 # <<>>, "popped from an empty queue")
             \o Fl(out = <<>> \/ e[2][3] = 1, "delivered unasked")
             \o Fl(out = <<>> \/ oc = <<>> \/ out[1][1] = oc[1], "delivered block follows its predecessor")
             \o Fl(e[2][3] = 0 \/ e[13] = (IF cut = 0 THEN <<>> ELSE [out[1] EXCEPT ![3] = cut]), "received block")
             \o Fl(Len(faq2) <= CapA /\ Len(ifq2) <= CapI /\ Len(ptb2) <= CapP /\ Len(f2b2) <= CapB, "queue overfull")
Spec == Init /\ [][Next]_vars
Conforms == bad = <<>>
View == <<tid, l, bad>>
Alias == [tid |-> tid, l |-> l, bad |-> bad, cycle |-> IF l > 1 THEN Traces[tid].pt[l - 1] ELSE <<>>, faq |-> faq,
          icq |-> icq, ifq |-> ifq, ptb |-> ptb, f2b |-> f2b, pend |-> pend, chain |-> chain, oc |-> oc]
=============================================================================
