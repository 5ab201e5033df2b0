SPECIFICATION Spec
CONSTANTS M = 4 W = 4
INVARIANTS Three Four
CHECK_DEADLOCK FALSE
