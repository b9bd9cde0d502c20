SPECIFICATION Spec
CONSTANTS
  Nodes = {1, 2}
  Coords = {0, 4, 12}
  Centers = {0, 6}
  Scales = {4, 24}
  Steps = 3
INVARIANTS Kept Shape
CHECK_DEADLOCK FALSE
