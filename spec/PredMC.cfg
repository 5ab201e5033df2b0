SPECIFICATION Spec
CONSTANTS M = 3 W = 4
INVARIANTS Three Four
CHECK_DEADLOCK FALSE
