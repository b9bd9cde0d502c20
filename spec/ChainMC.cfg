SPECIFICATION Spec
CONSTANT Steps = 3
INVARIANTS Sound Meets
PROPERTY Restored
CHECK_DEADLOCK FALSE
