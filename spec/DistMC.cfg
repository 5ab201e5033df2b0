SPECIFICATION Spec
CONSTANTS M = 2 W = 5
INVARIANTS PS SS
CHECK_DEADLOCK FALSE
