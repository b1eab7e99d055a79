------------------------------ MODULE IssueMC -------------------------------
(***************************************************************************)
(* Wake-up and select.  A window of instructions, each with one source and  *)
(* one destination register, a latency L and a mechanism bit "sb": the      *)
(* queue believes the source is still busy.  busy is the dispatch stage's   *)
(* table.  An instruction issued in cycle t produces its value in cycle t+L;*)
(* its consumers are woken in cycle t+L-1 so that they can issue in t+L.    *)
(* Wake-ups with L > 1 wait in a delay line and are withdrawn when their    *)
(* instruction is squashed; two that are due together on one channel go one *)
(* after the other.  The claims are that nothing issues without its *)
(* operand and that no consumer misses its wake-up, for every interleaving  *)
(* of dispatch, issue, squash and retirement in each cycle.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NP, MaxWin, Lats
Reg == 1..NP

VARIABLES win,   \* [d, s, lat, st, sb]; st: -1 queued, n > 0 cycles until produced, 0 produced
          busy,  \* dispatch's table: registers whose wake-up is still to come
          line,  \* delay line: set of <<register, cycles until wake-up>>
          ok
vars == <<win, busy, line, ok>>
Init == win = <<>> /\ busy = {} /\ line = {} /\ ok = TRUE

Producer(w, k, p) == {j \in 1..(k - 1) : w[j].d = p}
Ready(w, k) == \A j \in Producer(w, k, w[k].s) : w[j].st = 0
Free(w) == Reg \ UNION {{w[k].d, w[k].s} : k \in 1..Len(w)}

\* one cycle: issue the set I, wake, dispatch new (sequence of [s, lat]), cut after position c, retire n;
\* the wake-ups H are held back a cycle
Cycle(I, new, c, n, H) ==
  LET aged == [k \in 1..Len(win) |-> IF win[k].st > 0 THEN [win[k] EXCEPT !.st = @ - 1] ELSE win[k]]
      okI == \A k \in I : ~win[k].sb => Ready(aged, k)
      iss == [k \in 1..Len(win) |-> IF k \in I THEN [aged[k] EXCEPT !.st = aged[k].lat] ELSE aged[k]]
      kept == IF c < Len(win) THEN 1..c ELSE 1..Len(win)
      cut == c < Len(win)
      fast == {win[k].d : k \in {j \in I \cap kept : win[j].lat = 1}}
      due == {x \in line : x[2] = 1} \ H
      dead == {win[k].d : k \in {j \in 1..Len(win) : j \notin kept}}
      wake == fast \cup {x[1] : x \in due} 
      line1 == {<<x[1], IF x \in H THEN 1 ELSE x[2] - 1>> : x \in {y \in line \ due : y[1] \notin dead}}
               \cup {<<win[k].d, win[k].lat - 1>> : k \in {j \in I \cap kept : win[j].lat > 1}}
      w1 == [k \in kept |-> IF iss[k].st = -1 /\ iss[k].s \in wake THEN [iss[k] EXCEPT !.sb = FALSE] ELSE iss[k]]
      b1 == (busy \ wake) \ dead
      \* dispatch sees this cycle's wake-ups; not in a recovery cycle
      d == IF Free(win) = {} THEN 0 ELSE CHOOSE x \in Free(win) : TRUE
  IN /\ ok' = okI
     /\ LET w2 == IF new = <<>> \/ cut THEN w1 ELSE Append(w1, [d |-> d, s |-> new[1], lat |-> new[2], st |-> -1, sb |-> new[1] \in b1])
            b2 == IF new = <<>> \/ cut THEN b1 ELSE b1 \cup {d}
        IN /\ n <= Len(w2) /\ \A k \in 1..n : w2[k].st = 0
           /\ win' = SubSeq(w2, n + 1, Len(w2)) /\ busy' = b2 /\ line' = line1

Next ==
  \E I \in SUBSET {k \in 1..Len(win) : win[k].st = -1 /\ ~win[k].sb},
     new \in {<<>>} \cup (IF Len(win) < MaxWin /\ Cardinality(Free(win)) > 0 THEN (Reg \ {CHOOSE x \in Free(win) : TRUE}) \X Lats ELSE {}),
     c \in 0..Len(win), n \in 0..1, H \in SUBSET {x \in line : x[2] = 1 /\ \E k \in 1..Len(win) : win[k].d = x[1] /\ win[k].st = 2} :
       /\ Cardinality(I) <= 2
       /\ (c < Len(win) => n = 0 /\ new = <<>>)
       /\ Cycle(I, new, c, n, H)

Spec == Init /\ [][Next]_vars
NeverEarly == ok
\* a consumer believed to wait really has a wake-up coming
NoLostWake == \A k \in 1..Len(win) : win[k].st = -1 /\ win[k].sb =>
                 \E j \in 1..(k - 1) : win[j].d = win[k].s /\ (win[j].st = -1 \/ (win[j].st > 0 /\ \E x \in line : x[1] = win[j].d))
\* and one believed ready really has its operand by the next cycle
NeverLate == \A k \in 1..Len(win) : win[k].st = -1 /\ ~win[k].sb =>
                 \A j \in Producer(win, k, win[k].s) : win[j].st \in {0, 1}
BusyRight == busy = {win[k].d : k \in {j \in 1..Len(win) : win[j].st = -1 \/ (win[j].st > 0 /\ \E x \in line : x[1] = win[j].d)}}
LineRight == \A x \in line : \E k \in 1..Len(win) : win[k].d = x[1] /\ win[k].st \in {x[2], x[2] + 1}
=============================================================================
