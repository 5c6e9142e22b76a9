CONSTANTS P = 23 E = 8 LB = 12
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
