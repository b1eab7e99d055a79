SPECIFICATION Spec
CONSTANTS Depth = 7
INVARIANTS Paired Sent Timer Dma ReadBack
CHECK_DEADLOCK FALSE
