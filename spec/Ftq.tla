-------------------------------- MODULE Ftq ---------------------------------
(***************************************************************************)
(* Fetch blocks between the front end and retirement.                       *)
(*   blocks  live fetch blocks in fetch order, each [idx, slots, next] with *)
(*           slots a sequence of [off, inst, pc, ..] in program order       *)
(*   buf     instructions waiting for decode, in fetch order, each          *)
(*           [idx, off]                                                     *)
(* A block lives from its acceptance until its last instruction retires,    *)
(* a misprediction in an older block, or a flush; its name is not given to  *)
(* another block while it lives.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Names(b) == {b[k].idx : k \in 1..Len(b)}
BlockOf(b, i) == b[CHOOSE k \in 1..Len(b) : b[k].idx = i]
HasSlot(b, i, o) == i \in Names(b) /\ \E k \in 1..Len(BlockOf(b, i).slots) : BlockOf(b, i).slots[k].off = o
SlotOf(b, i, o) == LET s == BlockOf(b, i).slots IN s[CHOOSE k \in 1..Len(s) : s[k].off = o]
LastOff(blk) == blk.slots[Len(blk.slots)].off
\* a misprediction in block i keeps i and everything older
KeepTo(b, i) == SubSeq(b, 1, CHOOSE k \in 1..Len(b) : b[k].idx = i)
MayName(b, i) == i \notin Names(b)
=============================================================================
