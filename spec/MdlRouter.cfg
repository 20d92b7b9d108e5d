CONSTANTS Links <- LinksTwo MaxMsg = 3 Rdys <- RdysAll
SPECIFICATION Spec
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
