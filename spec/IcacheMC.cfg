SPECIFICATION Spec
CONSTANTS
  Lines = {1, 2}
  Words = 2
  MaxV = 1
  Ids = {1, 2}
  ProbeFirst = TRUE
  ReuseIds = FALSE
INVARIANTS Answers Cached Sound Fresh
CHECK_DEADLOCK FALSE
