SPECIFICATION Spec
CONSTANT N = 5
INVARIANTS Right Ranked Sorted
CHECK_DEADLOCK FALSE
