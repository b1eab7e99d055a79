SPECIFICATION Spec
CONSTANTS NB = 3
 NS = 5
 CapA = 4
 CapI = 3
 CapP = 4
 CapB = 2
INVARIANTS Paired Bounded Beside Chained
CHECK_DEADLOCK FALSE
