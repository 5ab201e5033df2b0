SPECIFICATION Spec
CONSTANTS N = 5
 M = 2
 MARK = TRUE
INVARIANT Decided
