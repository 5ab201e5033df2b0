SPECIFICATION Spec
CONSTANTS M = 4 R = 3 Steps = 16
INVARIANTS Sound Complete EndsOK SegPrefix Cross1 Circ
PROPERTY Unimodal
CHECK_DEADLOCK FALSE
