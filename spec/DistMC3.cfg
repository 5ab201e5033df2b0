SPECIFICATION Spec
CONSTANTS M = 3 W = 5
INVARIANTS PS SS
CHECK_DEADLOCK FALSE
