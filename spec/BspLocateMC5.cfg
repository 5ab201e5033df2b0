SPECIFICATION Spec
CONSTANTS N = 5
 M = 2
INVARIANT Located
