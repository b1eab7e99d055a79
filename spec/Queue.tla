------------------------------- MODULE Queue --------------------------------
(***************************************************************************)
(* One queue of the front end, one cycle at a time.  A cycle may empty it   *)
(* (reset: nothing else happens; refetch: emptied first), accept an entry,  *)
(* possibly followed by an empty companion entry, and deliver one.  An      *)
(* entry accepted by an empty queue may be delivered in the same cycle.     *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* op = [reset, refetch, write, read, mini, split]; split: the read happens before the write
Before(q, op) == IF op.reset \/ op.refetch THEN <<>> ELSE q
Arrive(op, w) == IF op.write /\ ~op.reset THEN <<w>> \o (IF op.mini THEN <<0>> ELSE <<>>) ELSE <<>>
Visible(q, op, w) == IF op.split THEN Before(q, op) ELSE Before(q, op) \o Arrive(op, w)
Delivers(q, op, w) == op.read /\ ~op.reset /\ Visible(q, op, w) # <<>>
Delivered(q, op, w) == IF Delivers(q, op, w) THEN Head(Visible(q, op, w)) ELSE -1
After(q, op, w) == LET all == Before(q, op) \o Arrive(op, w) IN IF Delivers(q, op, w) THEN Tail(all) ELSE all
=============================================================================
