SPECIFICATION Spec
CONSTANTS N = 5 K = 3 D = 1
INVARIANTS Holds Least Ordered
CHECK_DEADLOCK FALSE
