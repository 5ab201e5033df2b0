SPECIFICATION Spec
CONSTANTS N = 4 M = 3
INVARIANTS Good
CHECK_DEADLOCK FALSE
