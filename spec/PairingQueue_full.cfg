SPECIFICATION Spec
CONSTANTS N = 5 K = 2 D = 2
INVARIANTS Holds Least Ordered
CHECK_DEADLOCK FALSE
