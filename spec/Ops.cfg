SPECIFICATION Spec
INVARIANTS Commutes SubIsAdd Inverse Antisymmetric NaNFromNaN Neutral Unit
PROPERTIES Bilinear Odd
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
