CONSTANTS Keys <- KeysQuick MaxAtt = 2 MaxClose = 2
SPECIFICATION Spec
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
