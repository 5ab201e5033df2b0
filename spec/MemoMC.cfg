CONSTANTS K = 3
 All = FALSE
SPECIFICATION Spec
INVARIANTS OneAnswer NoRefused Again Plain Apart Emit
CHECK_DEADLOCK FALSE
