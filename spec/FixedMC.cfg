CONSTANTS K = 3
 Kinds <- MCKinds
 Amounts <- MCAmounts
SPECIFICATION Spec
INVARIANTS InFormat Undo ProductClose QuotientClose RoundingOK Emit
CHECK_DEADLOCK FALSE
