SPECIFICATION Spec
CONSTANTS K = 6
 P = 3
INVARIANTS Partition Maximal Emit
