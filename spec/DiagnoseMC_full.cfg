SPECIFICATION Spec
CONSTANTS NS = 3 NT = 3
INVARIANTS Definition Listed Sound
CHECK_DEADLOCK FALSE
