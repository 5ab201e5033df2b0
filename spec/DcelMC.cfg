SPECIFICATION Spec
CONSTANTS K = 4
 P = 4
INVARIANTS Partition Maximal Emit
