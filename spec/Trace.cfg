SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANT DUMMY = 0
