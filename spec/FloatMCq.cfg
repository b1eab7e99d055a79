SPECIFICATION Spec
INVARIANTS One1 Two Three Conv
CHECK_DEADLOCK FALSE
CONSTANTS
  Mans = {0, 1, 8388607}
  Exps = {0, 1, 127, 128, 254}
