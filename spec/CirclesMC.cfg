SPECIFICATION Spec
CONSTANTS M = 2 R = 2 Steps = 9
INVARIANTS Sound Complete EndsOK SegPrefix Cross1 Circ
PROPERTY Unimodal
CHECK_DEADLOCK FALSE
