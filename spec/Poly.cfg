SPECIFICATION Spec
INVARIANT AllHold
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
