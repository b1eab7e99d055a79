SPECIFICATION Spec
CONSTANTS Max = 7
          Width = 4
INVARIANTS Window Stops Whole
CHECK_DEADLOCK FALSE
