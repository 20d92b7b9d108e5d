SPECIFICATION Spec
CONSTANT Deep = 0
INVARIANT Inv
INVARIANT Export
PROPERTY Grows
CHECK_DEADLOCK FALSE
