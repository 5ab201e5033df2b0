SPECIFICATION Spec
CONSTANT Stride = 1
INVARIANT WellTyped
