SPECIFICATION Spec
CONSTANTS W = 3
 H = 3
INVARIANTS Within Complete Agrees
