CONSTANTS Links <- LinksTwo MaxIn = 4 MaxHold = 2
SPECIFICATION Spec
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
