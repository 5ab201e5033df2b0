SPECIFICATION Spec
CONSTANTS M = 3
INVARIANTS Pts Two
CHECK_DEADLOCK FALSE
