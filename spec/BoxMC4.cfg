SPECIFICATION Spec
CONSTANTS M = 4
INVARIANTS Pts Two
CHECK_DEADLOCK FALSE
