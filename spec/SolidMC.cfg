SPECIFICATION Spec
CONSTANTS N = 4
 M = 2
 MARK = TRUE
INVARIANT Decided
