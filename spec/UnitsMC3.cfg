CONSTANTS K = 3
 Values = TRUE
SPECIFICATION Spec
INVARIANTS Homogeneous Allowed Forward Lagrange Onto Middle
CHECK_DEADLOCK FALSE
