SPECIFICATION Spec
CONSTANTS M = 3
INVARIANTS Points Segs
CHECK_DEADLOCK FALSE
