CONSTANTS P = 23 E = 8 LB = 12 W = 60
SPECIFICATION Spec
INVARIANT Written
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
