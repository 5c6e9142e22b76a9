CONSTANTS
  Threads = {1, 2}
  Kinds = {"pure", "memo", "torn", "shared", "warm"}
  Good = {"pure", "memo"}
  Limit = 4
SPECIFICATION Spec
INVARIANTS Refines Note
POSTCONDITION Exposed
CHECK_DEADLOCK FALSE
