CONSTANTS K = 3
 Amounts <- MCAmounts
 Bases = {1, 2, 3, 4, 5}
SPECIFICATION Spec
INVARIANTS ListIsArc Increasing Rejoins Commutes Emit
CHECK_DEADLOCK FALSE
