CONSTANTS P = 4 E = 4
SPECIFICATION Spec
INVARIANTS TypeOK Conforms StepConforms Adjacent Integers32 Representable Idempotent SignsKept
CHECK_DEADLOCK FALSE
