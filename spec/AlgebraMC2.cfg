SPECIFICATION Spec
CONSTANTS B = 2
BV = 1
INVARIANTS Two Three Pair
CHECK_DEADLOCK FALSE
