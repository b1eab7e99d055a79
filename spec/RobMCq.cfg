SPECIFICATION Spec
CONSTANTS NL = 2
  NB = 2
INVARIANTS Lockstep Decisions UniqueIds NoZombies EmptyRight
CHECK_DEADLOCK FALSE
