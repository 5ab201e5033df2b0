SPECIFICATION Spec
CONSTANTS Depth = 4 Emitting = FALSE
INVARIANTS Typed Replayed Traced Emit
CHECK_DEADLOCK FALSE
