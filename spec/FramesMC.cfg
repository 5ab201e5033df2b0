SPECIFICATION Spec
CONSTANTS Depth = 3 Emitting = TRUE
INVARIANTS Typed Replayed Traced Emit
CHECK_DEADLOCK FALSE
