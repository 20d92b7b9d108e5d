CONSTANTS MaxSend = 1 MaxIn = 1 MaxAtt = 0 Chans <- ChansOne
SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY One
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
