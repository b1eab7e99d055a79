SPECIFICATION Spec
CONSTANTS Max = 4
          Width = 4
INVARIANTS Window Stops Whole
CHECK_DEADLOCK FALSE
