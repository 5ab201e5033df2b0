SPECIFICATION Spec
CONSTANTS K = 2
 M = 2
INVARIANT Emit
