CONSTANTS P = 2 E = 3 LB = 3
SPECIFICATION Spec
INVARIANTS Dyadic Integral Euclidean Roots Inverses Powers Lengths
CHECK_DEADLOCK FALSE
