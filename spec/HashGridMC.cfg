SPECIFICATION Spec
CONSTANT K = 4
INVARIANTS Functional ByHistory FindIsPure Emit
