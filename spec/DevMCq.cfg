SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS Paired Sent Timer Dma ReadBack
CHECK_DEADLOCK FALSE
