SPECIFICATION Spec
CONSTANTS M = 3
INVARIANTS Pairs
CHECK_DEADLOCK FALSE
