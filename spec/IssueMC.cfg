SPECIFICATION Spec
CONSTANTS NP = 5
  MaxWin = 3
  Lats = {1, 2, 3}
INVARIANTS NeverEarly NoLostWake NeverLate BusyRight LineRight
CHECK_DEADLOCK FALSE
