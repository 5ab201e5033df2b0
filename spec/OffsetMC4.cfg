SPECIFICATION Spec
CONSTANTS Edges = 4 Emitting = TRUE
INVARIANTS Built Unique Reversed Trimless Emit
CHECK_DEADLOCK FALSE
