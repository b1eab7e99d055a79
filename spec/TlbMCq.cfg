CONSTANTS Spaces = {1, 2} Pages = {1, 2} Slots = {0, 1} Updates = 1
SPECIFICATION Spec
INVARIANTS Right Fresh Agree
CHECK_DEADLOCK FALSE
