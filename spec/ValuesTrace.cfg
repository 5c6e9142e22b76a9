CONSTANTS P = 23 E = 8 Registers = {1, 2, 3, 4}
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
