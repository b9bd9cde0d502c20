SPECIFICATION Spec
CONSTANTS N = 4  Emit = TRUE
INVARIANTS Witness EmitVector
CHECK_DEADLOCK FALSE
