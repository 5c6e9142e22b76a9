CONSTANTS P = 23 E = 8
SPECIFICATION Spec
INVARIANTS TypeOK Ordered NaNs NegPow
PROPERTIES SwapKeeps FlipKeeps
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
