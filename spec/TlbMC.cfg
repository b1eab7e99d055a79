CONSTANTS Spaces = {1, 2} Pages = {1, 2} Slots = {0, 1, 2} Updates = 2
SPECIFICATION Spec
INVARIANTS Right Fresh Agree
CHECK_DEADLOCK FALSE
