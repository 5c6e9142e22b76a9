CONSTANTS P = 23 E = 8 LB = 12 W = 72 MaxI = 150 MaxE = 12
SPECIFICATION Spec
INVARIANTS OnCircle Even Turns Grows Tangents Inverts LnAdds Constants
CHECK_DEADLOCK FALSE
