SPECIFICATION Spec
INVARIANT Folded
INVARIANT Follows
INVARIANT Newest
CHECK_DEADLOCK FALSE
CONSTANTS
  Hist = 5
  Lens = {2, 3, 5}
  Widths = {2, 3}
  Window = 3
  Depth = 2
