SPECIFICATION Spec
INVARIANTS NotStuck DoneAtTheEnd ShownInOrder NothingLost Alternate
CHECK_DEADLOCK FALSE
