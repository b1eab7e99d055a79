SPECIFICATION Spec
CONSTANTS
  Lines = {1, 2, 3}
  Values = {0, 1}
  WAYS = 1
  MISSES = 2
  BACKS = 1
INVARIANT Answers
INVARIANT Owner
INVARIANT Kept
INVARIANT Clean
INVARIANT Progress
CHECK_DEADLOCK FALSE
