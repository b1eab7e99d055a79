SPECIFICATION Spec
CONSTANTS NB = 4
  NS = 5
  MaxWin = 6
INVARIANTS Right Lockstep Held Released
CHECK_DEADLOCK FALSE
