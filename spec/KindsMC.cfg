CONSTANTS K = 2
 All = FALSE
SPECIFICATION Spec
INVARIANTS Back Right Anti Lagrange Middle Emit
CHECK_DEADLOCK FALSE
