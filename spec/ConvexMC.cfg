SPECIFICATION Spec
CONSTANTS M = 2 Steps = 3 Shapes = 2 Shift = 1 VX = 0
INVARIANTS Sat Sym Interval Cornered
CHECK_DEADLOCK FALSE
