SPECIFICATION Spec
CONSTANTS N = 4  Emit = FALSE
INVARIANTS Witness EmitVector
CHECK_DEADLOCK FALSE
