CONSTANTS P = 23 E = 8 Registers = {1, 2, 3}
MCKind = "Vector2d" MCComp = "float"
SPECIFICATION Spec
INVARIANTS Reflexive Symmetric Transitive OneDiffers
PROPERTIES Copies
POSTCONDITION Emitted
CHECK_DEADLOCK FALSE
