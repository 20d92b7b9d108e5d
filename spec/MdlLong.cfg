SPECIFICATION Spec
INVARIANT Inv
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
