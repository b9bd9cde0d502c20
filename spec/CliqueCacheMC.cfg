SPECIFICATION Spec
CONSTANTS MaxLen = 2 MaxChains = 2 Depth = 4
INVARIANTS Sound Laws
PROPERTY Offered
CHECK_DEADLOCK FALSE
