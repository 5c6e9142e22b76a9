CONSTANT N = 256
SPECIFICATION Spec
INVARIANTS OnCircle Series Range Closes Doubles
PROPERTIES Monotone Speed
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
