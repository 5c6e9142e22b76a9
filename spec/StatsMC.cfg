SPECIFICATION Spec
CONSTANTS MaxLen = 4
 R = 2
INVARIANTS Sums TwoPass NoClash Trimmed Wider Laws
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
