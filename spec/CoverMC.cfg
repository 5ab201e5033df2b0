CONSTANTS K = 3
 N = 3
SPECIFICATION Spec
INVARIANTS Exact Disjoint Found Emit
CHECK_DEADLOCK FALSE
