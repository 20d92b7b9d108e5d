SPECIFICATION Spec
CONSTANT Deep = 0
INVARIANT Sane
POSTCONDITION Export
CHECK_DEADLOCK FALSE
