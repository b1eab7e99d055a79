------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The simulator's command line and run loop.                               *)
(*   run  N       the core runs until it retired N instructions             *)
(*   ckpt I W N   the reference model runs I - W instructions from the      *)
(*                checkpoint, the core takes over and warms up for W, the    *)
(*                counters start again, and the run ends after N more        *)
(*   fast F N     the reference model runs F instructions, then as run      *)
(*   ref  N       the reference model runs N instructions                   *)
(* Any of them ends earlier when the program does, or on request (SIGINT).  *)
(* One step of Retire is one instruction the core retires; several may      *)
(* retire in one cycle, and the loop looks at the counts between cycles.    *)
(***************************************************************************)
EXTENDS Naturals, Integers
RUN == 0   CKPT == 1   FAST == 2   REF == 3
Unset == -1
\* o: m mode, w warm-up, n limit, f forward, i interval of the checkpoint; Unset when not given
WellFormed(o) ==
  /\ o.n # 0
  /\ o.m = FAST => o.f > 0
  /\ o.m = CKPT => IF o.i = 0 THEN o.w \in {Unset, 0} /\ o.n > 0 ELSE o.w <= o.i
Warm(o) == IF o.m # CKPT THEN 0 ELSE IF o.w = Unset THEN o.i ELSE o.w
Limit(o) == IF o.m = CKPT /\ o.n = Unset THEN o.i ELSE o.n       \* Unset: no limit in practice
Least(a, b) == IF b = Unset \/ (a # Unset /\ a < b) THEN a ELSE b
\* instructions the reference model runs before the core, if its program does not end first
Ahead(o) == CASE o.m = CKPT -> o.i - Warm(o) [] o.m = FAST -> o.f [] o.m = REF -> o.n [] OTHER -> 0
\* e: the step at which the reference model's program ends, or Unset
Steps(o, e) == IF Ahead(o) = 0 THEN 0 ELSE Least(Ahead(o), e)
EndsAhead(o, e) == Ahead(o) # 0 /\ e # Unset /\ (Ahead(o) = Unset \/ e <= Ahead(o))

\* counters c: the phase, and instructions, loads, stores, branches since it began
Start(o) == [ph |-> IF Warm(o) = 0 THEN "measure" ELSE "warm", n |-> 0, ld |-> 0, st |-> 0, br |-> 0, at |-> 0, over |-> 0]
\* at: cycle in which the phase began; over: branches of the instruction that ended the warm-up
Retire(o, c, cyc, ld, st, br) ==
  LET d == [c EXCEPT !.n = @ + 1, !.ld = @ + ld, !.st = @ + st, !.br = @ + br]
  IN IF d.ph = "warm" /\ d.n = Warm(o)
     THEN [ph |-> "measure", n |-> 0, ld |-> 0, st |-> 0, br |-> 0, at |-> cyc, over |-> br]
     ELSE d
Full(o, c) == c.ph = "measure" /\ Limit(o) # Unset /\ c.n >= Limit(o)
=============================================================================
