CONSTANTS W = 3 H = 2 N = 3
SPECIFICATION Spec
INVARIANTS ReportedSoFar ReportsAreExact InOrder NextIsKnown StatusIsRight NoRepeats Emit
CHECK_DEADLOCK FALSE
