CONSTANTS P = 23 E = 8
SPECIFICATION Spec
INVARIANTS Exact Integral Ends
PROPERTY Rises
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
