SPECIFICATION Spec
CONSTANTS
  Lines = {1}
  Words = 2
  MaxV = 2
  Ids = {1, 2}
  ProbeFirst = TRUE
  ReuseIds = FALSE
INVARIANTS Answers Cached Sound Fresh
CHECK_DEADLOCK FALSE
