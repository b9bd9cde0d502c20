SPECIFICATION Spec
CONSTANTS
  Nodes = {1, 2, 3}
  Coords = {0, 12}
  Centers = {0, 6}
  Scales = {4, 24}
  Steps = 4
INVARIANTS Kept Shape
CHECK_DEADLOCK FALSE
