CONSTANTS K = 3
 Codes = {1, 2, 3, 4, 6, 7, 9, 11, 13, 15, 16, 19, 21}
SPECIFICATION Spec
INVARIANTS IntWhole Undone Swapped Assigned SameForm Truncates
CHECK_DEADLOCK FALSE
