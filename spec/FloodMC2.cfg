SPECIFICATION Spec
CONSTANTS W = 4
 H = 3
INVARIANTS Within Complete Agrees
