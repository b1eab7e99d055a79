SPECIFICATION Spec
CONSTANTS NA = 3
 NP = 5
 NT = 2
 W = 2
 MaxWin = 4
INVARIANTS Agree Own
VIEW View
CHECK_DEADLOCK FALSE
