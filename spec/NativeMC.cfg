SPECIFICATION Spec
CONSTANTS
    Lattices <- Small
    LostNodes = 1
    LostCouplers = 1
    Widest = 2
INVARIANTS CliquesSound BicliquesSound
CHECK_DEADLOCK FALSE
