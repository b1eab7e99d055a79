------------------------------ MODULE DriverMC ------------------------------
(***************************************************************************)
(* Every command line with small numbers, every grouping of retirements     *)
(* into cycles of at most Width and every end of the program.               *)
(***************************************************************************)
EXTENDS Driver, TLC
CONSTANTS Max, Width
Small == {Unset} \cup 0..Max
VARIABLES o, e, c, k, slot, total, ended
vars == <<o, e, c, k, slot, total, ended>>
Init == /\ o \in [m : {RUN, CKPT, FAST, REF}, w : Small, n : Small, f : 0..Max, i : 0..Max]
        /\ e \in Small \ {0}
        /\ WellFormed(o) /\ o.m # REF /\ (o.m # CKPT => o.w = Unset /\ o.i = 0) /\ (o.m # FAST => o.f = 0)
        /\ ~EndsAhead(o, e)
        /\ c = Start(o) /\ k = 0 /\ slot = 0 /\ total = Steps(o, e) /\ ended = FALSE
Bound == Warm(o) + (IF Limit(o) = Unset THEN Max ELSE Limit(o)) + Width
Commit == /\ ~ended /\ slot < Width /\ k < Bound
          /\ (slot = 0 => ~Full(o, c))
          /\ c' = Retire(o, c, k, 0, 0, 0) /\ k' = k + 1 /\ slot' = slot + 1 /\ total' = total + 1
          /\ ended' \in (IF e # Unset /\ total + 1 >= e THEN {TRUE} ELSE {FALSE})
          /\ UNCHANGED <<o, e>>
Cycle == /\ ~ended /\ slot > 0 /\ slot' = 0 /\ ended' = Full(o, c) /\ UNCHANGED <<o, e, c, k, total>>
Next == Commit \/ Cycle
Spec == Init /\ [][Next]_vars
\* the measured window begins after exactly the warm-up and holds at least the limit,
\* and fewer than one cycle's retirements more, when the run was not cut short by its program
Window == /\ c.ph = "warm" => c.n = k /\ k < Warm(o)
          /\ c.ph = "measure" => c.n = k - Warm(o)
          /\ Limit(o) # Unset => c.n < Limit(o) + Width \/ c.ph = "warm"
Stops == ended => \/ Full(o, c)
                  \/ e # Unset /\ total >= e
\* a checkpoint run with nothing given measures the instructions of the interval that follows the first
Whole == o.m = CKPT => Steps(o, e) + Warm(o) = o.i
=============================================================================
