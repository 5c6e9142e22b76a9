SPECIFICATION Spec
INVARIANT Complete
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
