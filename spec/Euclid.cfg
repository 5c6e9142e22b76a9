CONSTANT M = 24
SPECIFICATION Spec
INVARIANTS Invariant InRange Quotient Remainder Scales
PROPERTY Terminates
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
