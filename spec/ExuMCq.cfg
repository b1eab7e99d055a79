SPECIFICATION Spec
CONSTANTS
  N = 4
  Masks = {0, 1, 2}
  DivLat = 3
  MaxT = 6
INVARIANTS Conserved Timed InOrder Bounded Prompt
CHECK_DEADLOCK FALSE
