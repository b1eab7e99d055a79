-------------------------------- MODULE Tags --------------------------------
(***************************************************************************)
(* Branch tags.  w is the window of instructions between decode and         *)
(* retirement in program order; an entry has                                *)
(*   tag   the tag of a branch, 0 for other instructions                    *)
(*   open  TRUE from decode until the branch's resolution has been announced*)
(* The set of tags an instruction has to carry is that of the open branches *)
(* older than itself.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

OpenTags(w, n) == {w[k].tag : k \in {j \in 1..n : w[j].open}}
Carried(w, k) == OpenTags(w, k - 1)
InUse(w) == OpenTags(w, Len(w))
MayTake(w, t) == t \notin InUse(w)

\* the branches whose tags are in C have resolved
ClearTags(w, C) == [k \in 1..Len(w) |-> IF w[k].tag \in C THEN [w[k] EXCEPT !.open = FALSE] ELSE w[k]]
PosOfTag(w, t) == IF \E k \in 1..Len(w) : w[k].open /\ w[k].tag = t
                  THEN CHOOSE k \in 1..Len(w) : w[k].open /\ w[k].tag = t ELSE 0
\* the branch holding t was mispredicted: it stays, everything younger goes
SquashAfter(w, t) == SubSeq(w, 1, PosOfTag(w, t))

TagsUnique(w) == \A i, j \in 1..Len(w) : w[i].open /\ w[j].open /\ w[i].tag = w[j].tag => i = j
=============================================================================
