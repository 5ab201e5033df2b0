SPECIFICATION Spec
CONSTANTS N = 5 M = 3
INVARIANTS Good
CHECK_DEADLOCK FALSE
