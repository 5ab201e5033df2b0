SPECIFICATION Spec
CONSTANTS N = 3
 M = 1
INVARIANT Painted
