CONSTANT W = 12
SPECIFICATION Spec
INVARIANTS Loop Result Error Tight Work Signs
PROPERTY Ends
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
