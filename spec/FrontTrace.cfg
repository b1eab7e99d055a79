SPECIFICATION Spec
INVARIANT Conforms
VIEW View
ALIAS Alias
CHECK_DEADLOCK FALSE
CONSTANTS CapA = 8
 CapI = 8
 CapP = 8
 CapB = 8
 LineBytes = 64
 FW = 4
