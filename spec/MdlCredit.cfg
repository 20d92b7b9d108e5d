CONSTANTS MaxSend = 3 MaxFlow = 2
SPECIFICATION Spec
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
