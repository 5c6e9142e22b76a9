CONSTANTS P = 23 E = 8 LB = 12 W = 60
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
