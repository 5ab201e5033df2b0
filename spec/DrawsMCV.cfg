CONSTANTS K = 3
 Values = TRUE
SPECIFICATION Spec
INVARIANTS Function Limits CopyApart Fresh Colours
CHECK_DEADLOCK FALSE
