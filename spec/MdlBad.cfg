CONSTANTS MaxBad = 1 Frames <- FramesQuick
SPECIFICATION Spec
VIEW View
INVARIANT Inv
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
