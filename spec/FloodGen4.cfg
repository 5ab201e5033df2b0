SPECIFICATION Spec
CONSTANTS K = 4
 W = 3
 H = 2
INVARIANTS Coloured Emit
PROPERTY VisMono
