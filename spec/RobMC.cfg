SPECIFICATION Spec
CONSTANTS NL = 3
  NB = 2
INVARIANTS Lockstep Decisions UniqueIds NoZombies EmptyRight
CHECK_DEADLOCK FALSE
