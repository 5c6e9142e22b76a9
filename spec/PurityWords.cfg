CONSTANTS
  States = 2
  Longest = 4
SPECIFICATION Spec
INVARIANTS Complete Sound
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
