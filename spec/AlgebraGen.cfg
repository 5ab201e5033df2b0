SPECIFICATION Spec
CONSTANT Stride = 8
INVARIANT WellTyped
