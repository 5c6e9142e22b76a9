SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANTS Accepts Known Reads
PROPERTY Dead
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
