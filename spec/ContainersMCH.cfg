SPECIFICATION Spec
CONSTANTS Depth = 3 Emitting = FALSE Codes = {2, 10, 11, 13, 14, 16}
INVARIANTS Typed Replayed Closed Emit
PROPERTIES Framed Moved
CHECK_DEADLOCK FALSE
