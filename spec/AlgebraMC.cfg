SPECIFICATION Spec
CONSTANTS B = 1
BV = 1
INVARIANTS Two Three Pair
CHECK_DEADLOCK FALSE
