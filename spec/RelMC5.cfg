CONSTANTS W = 2
 H = 2
 N = 5
SPECIFICATION Spec
INVARIANTS Tally Decides Winds Rotated SelfInside Diagonals Emit
CHECK_DEADLOCK FALSE
