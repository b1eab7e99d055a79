SPECIFICATION Spec
INVARIANTS One1 Two Three Conv
CHECK_DEADLOCK FALSE
CONSTANTS
  Mans = {0, 1, 4194304, 8388606, 8388607}
  Exps = {0, 1, 103, 126, 127, 128, 150, 157, 254}
