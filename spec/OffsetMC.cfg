SPECIFICATION Spec
CONSTANTS Edges = 3 Emitting = TRUE
INVARIANTS Built Unique Reversed Trimless Emit
CHECK_DEADLOCK FALSE
