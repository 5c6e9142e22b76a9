SPECIFICATION Spec
INVARIANTS Fits Laws Division Spread
PROPERTY Delta
CHECK_DEADLOCK FALSE
