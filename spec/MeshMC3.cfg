CONSTANTS W = 3
 H = 2
SPECIFICATION Spec
INVARIANTS StoredAsGiven Mutual Within Reaches Looks Monotone Emit
CHECK_DEADLOCK FALSE
