CONSTANTS MaxDel = 2 MaxDisp = 2 MaxWait = 2 States <- StatesQuick
SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY Fixed
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
