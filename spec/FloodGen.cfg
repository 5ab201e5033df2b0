SPECIFICATION Spec
CONSTANTS K = 3
 W = 3
 H = 2
INVARIANTS Coloured Emit
PROPERTY VisMono
