SPECIFICATION Spec
CONSTANTS Base = 4 N = 4 Widths = {2, 3, 4} MaxCount = 3
INVARIANTS TypeOK SameValue SameCount RoundTrip Bytes FirstByte
POSTCONDITION Rows
CHECK_DEADLOCK FALSE
