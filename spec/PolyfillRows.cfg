CONSTANTS P = 23 E = 8
SPECIFICATION Spec
INVARIANTS Window FractWindow Small Large Special
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
