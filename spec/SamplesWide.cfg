CONSTANTS P = 2 E = 3 LB = 4 Longest = 3 Step = 4
SPECIFICATION Spec
INVARIANTS Bounded Separate
POSTCONDITION Covered
CHECK_DEADLOCK FALSE
