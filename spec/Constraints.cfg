SPECIFICATION Spec
CONSTANTS N = 3
 M = 2
INVARIANTS Suspension Fixing Contract
CHECK_DEADLOCK FALSE
