CONSTANTS P = 1 E = 3 LB = 3 MulAdd = FALSE
SPECIFICATION Spec
INVARIANTS Functional Near NanOnly Commutes Negates Exact Monotone Selfless Fused
CHECK_DEADLOCK FALSE
