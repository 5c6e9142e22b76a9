CONSTANTS
  Threads = {1}
  Kinds = {"pure", "memo", "torn", "shared", "warm"}
  Good = {"pure", "memo", "torn"}
  Limit = 5
SPECIFICATION Spec
INVARIANTS Refines Note
POSTCONDITION Exposed
CHECK_DEADLOCK FALSE
