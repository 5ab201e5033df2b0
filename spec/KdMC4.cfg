SPECIFICATION Spec
CONSTANTS N = 4
 M = 2
INVARIANTS Exact InRegion
