SPECIFICATION Spec
CONSTANT Steps = 5
INVARIANTS Sound Meets
PROPERTY Restored
CHECK_DEADLOCK FALSE
