-------------------------------- MODULE Rob ---------------------------------
(***************************************************************************)
(* The reorder buffer as a queue of instructions in program order.  An      *)
(* entry is a record with at least                                          *)
(*   id     its name while it is in the buffer                              *)
(*   want   the set of parts that have to finish                            *)
(*   done   the set of parts that have finished                             *)
(*   last   TRUE if nothing younger may leave in the same cycle (it flushes *)
(*          or serialises)                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* position of the live entry named id, 0 if there is none
PosOf(q, id) == IF \E k \in 1..Len(q) : q[k].id = id
                THEN CHOOSE k \in 1..Len(q) : q[k].id = id ELSE 0
Live(q, id) == \E k \in 1..Len(q) : q[k].id = id

\* part p of entry id finishes: legal once, for a live entry that expects it
MayFinish(q, id, p) == Live(q, id) /\ LET e == q[PosOf(q, id)] IN p \in e.want \ e.done
Finish(q, id, p) == [q EXCEPT ![PosOf(q, id)].done = @ \cup {p}]

Complete(e) == e.done = e.want
\* how many entries may leave together at most: up to the first incomplete
\* one, and none after an entry that ends its group
RECURSIVE Together(_)
Together(q) == IF q = <<>> \/ ~Complete(q[1]) THEN 0
               ELSE IF q[1].last THEN 1 ELSE 1 + Together(Tail(q))
MayRetire(q, n) == n <= Together(q)
RetireN(q, n) == SubSeq(q, n + 1, Len(q))

\* a misprediction of the branch named id keeps it and everything older
CutAfter(q, id) == SubSeq(q, 1, PosOf(q, id))

MayEnter(q, id) == ~Live(q, id)

Unique(q) == \A i, j \in 1..Len(q) : q[i].id = q[j].id => i = j
OldestIncomplete(q) ==
  IF \E k \in 1..Len(q) : ~Complete(q[k])
  THEN (CHOOSE k \in 1..Len(q) : ~Complete(q[k]) /\ \A j \in 1..(k - 1) : Complete(q[j])) ELSE 0
=============================================================================
