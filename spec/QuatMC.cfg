SPECIFICATION Spec
INVARIANTS Closed Same Undone Compose MulNorm Euler Locked Smallest
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
