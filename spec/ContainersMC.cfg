SPECIFICATION Spec
CONSTANTS Depth = 2 Emitting = TRUE Codes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}
INVARIANTS Typed Replayed Closed Emit
PROPERTIES Framed Moved
CHECK_DEADLOCK FALSE
