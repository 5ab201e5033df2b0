SPECIFICATION Spec
CONSTANTS M = 4
INVARIANTS Pairs
CHECK_DEADLOCK FALSE
