SPECIFICATION Spec
CONSTANTS N = 3
 M = 2
INVARIANTS Exact InRegion
