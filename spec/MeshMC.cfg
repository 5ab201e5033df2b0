CONSTANTS W = 2
 H = 2
SPECIFICATION Spec
INVARIANTS StoredAsGiven Mutual Within Reaches Looks Monotone Emit
CHECK_DEADLOCK FALSE
