CONSTANTS P = 1 E = 3 LB = 4 Longest = 4
SPECIFICATION Spec
INVARIANTS ReadOnce Nearest Back BackExp WrittenOnce Exists Rounds Padded
POSTCONDITION Covered
CHECK_DEADLOCK FALSE
