CONSTANTS LB = 2 Most = 40
SPECIFICATION Spec
INVARIANTS Represents Orders
CHECK_DEADLOCK FALSE
