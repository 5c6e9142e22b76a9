SPECIFICATION Spec
INVARIANTS TypeOK Wellformed Union Smallest
PROPERTIES Additive Exactly
POSTCONDITION Rows
CHECK_DEADLOCK FALSE
