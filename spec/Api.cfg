SPECIFICATION Spec
INVARIANTS Agree Total Faithful
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
