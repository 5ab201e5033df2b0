CONSTANTS K = 2
 All = TRUE
SPECIFICATION Spec
INVARIANTS Back Right Anti Lagrange Middle
CHECK_DEADLOCK FALSE
