SPECIFICATION Spec
CONSTANTS
  N = 4
  T = 3
  Q = 5
  Embedded = {1, 3, 4}
INVARIANTS Exclusive OnceEach AllSearched Partition SameAsSerial
PROPERTY Ends
CHECK_DEADLOCK FALSE
