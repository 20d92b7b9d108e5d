SPECIFICATION Spec
CONSTANTS Q = 4 P = 2 N = 5
INVARIANT Bounded
INVARIANT Export
CHECK_DEADLOCK FALSE
