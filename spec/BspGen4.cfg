SPECIFICATION Spec
CONSTANTS K = 4
 M = 1
INVARIANT Emit
