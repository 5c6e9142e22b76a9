SPECIFICATION Spec
INVARIANTS Covers NaNs Domain Symmetric Implied
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
