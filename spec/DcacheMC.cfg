SPECIFICATION Spec
CONSTANTS
  Lines = {1, 2, 3, 4}
  Values = {0, 1, 2}
  WAYS = 2
  MISSES = 3
  BACKS = 2
INVARIANT Answers
INVARIANT Owner
INVARIANT Kept
INVARIANT Clean
INVARIANT Progress
CHECK_DEADLOCK FALSE
