SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS Right Ranked Sorted
CHECK_DEADLOCK FALSE
