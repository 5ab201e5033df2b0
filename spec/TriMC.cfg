SPECIFICATION Spec
CONSTANTS M = 2
INVARIANTS Points Segs
CHECK_DEADLOCK FALSE
