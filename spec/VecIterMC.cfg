SPECIFICATION Spec
CONSTANT Max = 3
INVARIANTS Order Count
PROPERTIES Independent Fused
CHECK_DEADLOCK FALSE
