CONSTANTS P = 23 E = 8
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
