SPECIFICATION Spec
INVARIANT Fits
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
