CONSTANTS P = 23 E = 8 Chunks = 4 Size = 2 Values = 3
SPECIFICATION Spec
INVARIANTS TypeOK Verdict StepVerdict Neighbours Mirrored
POSTCONDITION Rows
CHECK_DEADLOCK FALSE
