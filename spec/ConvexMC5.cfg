SPECIFICATION Spec
CONSTANTS M = 2 Steps = 6 Shapes = 5 Shift = 3 VX = 2
INVARIANTS Sat Sym Interval Cornered
CHECK_DEADLOCK FALSE
