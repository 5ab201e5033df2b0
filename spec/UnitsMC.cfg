CONSTANTS K = 2
 Values = FALSE
SPECIFICATION Spec
INVARIANTS Homogeneous Allowed Forward Lagrange Onto Middle Emit
CHECK_DEADLOCK FALSE
