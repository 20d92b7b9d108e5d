SPECIFICATION Spec
CONSTANT Deep = 1
INVARIANT Sane
POSTCONDITION Export
CHECK_DEADLOCK FALSE
