SPECIFICATION Spec
INVARIANT Folded
INVARIANT Follows
INVARIANT Newest
CHECK_DEADLOCK FALSE
CONSTANTS
  Hist = 4
  Lens = {3, 4}
  Widths = {2, 3}
  Window = 2
  Depth = 2
