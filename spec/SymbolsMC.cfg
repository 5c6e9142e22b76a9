CONSTANTS
  Dims = {2, 3}
  Calls = 3
SPECIFICATION Spec
INVARIANTS Agree Normal
CHECK_DEADLOCK FALSE
