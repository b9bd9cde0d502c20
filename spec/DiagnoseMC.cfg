SPECIFICATION Spec
CONSTANTS NS = 2 NT = 3
INVARIANTS Definition Listed Sound
CHECK_DEADLOCK FALSE
