CONSTANTS Lims = {1, 2} MaxGaps = 3
SPECIFICATION Spec
INVARIANT Heard
INVARIANT InTime
ACTION_CONSTRAINT Export
CHECK_DEADLOCK FALSE
