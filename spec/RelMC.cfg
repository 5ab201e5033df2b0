CONSTANTS W = 2
 H = 2
 N = 4
SPECIFICATION Spec
INVARIANTS Tally Decides Winds Rotated SelfInside Diagonals Emit
CHECK_DEADLOCK FALSE
