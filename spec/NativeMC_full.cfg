SPECIFICATION Spec
CONSTANTS
    Lattices <- Large
    LostNodes = 1
    LostCouplers = 1
    Widest = 3
INVARIANTS CliquesSound BicliquesSound
CHECK_DEADLOCK FALSE
