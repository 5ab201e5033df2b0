CONSTANTS K = 4
 All = TRUE
SPECIFICATION Spec
INVARIANTS OneAnswer NoRefused Again Plain Apart
CHECK_DEADLOCK FALSE
