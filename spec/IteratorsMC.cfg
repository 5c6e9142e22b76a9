SPECIFICATION Spec
CONSTANTS MaxItems = 8
INVARIANTS TypeOK Increasing Complete Agrees Halves
POSTCONDITION Rows
CHECK_DEADLOCK FALSE
