CONSTANT R = 12
SPECIFICATION Spec
INVARIANTS TypeOK Functional Laws Division Exchange
CHECK_DEADLOCK FALSE
