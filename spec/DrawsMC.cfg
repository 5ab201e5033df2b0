CONSTANTS K = 3
 Values = FALSE
SPECIFICATION Spec
INVARIANTS Function Limits CopyApart Fresh Colours Emit
CHECK_DEADLOCK FALSE
