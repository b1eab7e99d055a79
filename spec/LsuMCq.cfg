SPECIFICATION Spec
CONSTANTS N = 3
 K = 3
 D = 2
 Flushes = 1
 Kinds = {"L", "S", "B", "LR", "SC"}
 WrongKinds = {"L", "S"}
INVARIANTS AsIfOneByOne MemoryOverlay Reservation RightPath
