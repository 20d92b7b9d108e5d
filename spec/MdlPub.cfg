CONSTANTS Links <- LinksOne MaxMsg = 2 MaxAtt = 2
SPECIFICATION Spec
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
