SPECIFICATION Spec
CONSTANT K = 5
INVARIANTS Functional ByHistory FindIsPure Emit
