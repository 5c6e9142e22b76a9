SPECIFICATION Spec
CONSTANT R = 3
INVARIANTS Sound Symmetric Triangle Cauchy
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
