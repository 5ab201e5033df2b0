CONSTANTS K = 2
 Codes = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22}
SPECIFICATION Spec
INVARIANTS IntWhole Undone Swapped Assigned SameForm Truncates Emit
CHECK_DEADLOCK FALSE
