SPECIFICATION Spec
CONSTANTS NT = 3
  MaxWin = 5
  W = 2
  Units = 2
INVARIANTS Exact Unique CarriedRight Running Conserved
VIEW View
CHECK_DEADLOCK FALSE
