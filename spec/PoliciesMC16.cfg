CONSTANT N = 16
SPECIFICATION Spec
INVARIANTS Trichotomy OrEqual Symmetric Transitive Interval Monotone ScaleFree Exact
CHECK_DEADLOCK FALSE
